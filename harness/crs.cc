#include "trace.hh"
#include "galois_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
using namespace CODE;
/* n elements starting at any misalignment (in elements) from a 64 byte boundary, guarded */
template <typename T>
struct Buf
{
	T *base, *p;
	int n;
	static const int G = 128;
	Buf(int n, int mis) : n(n)
	{
		size_t bytes = ((n + 2 * G + 64) * sizeof(T) + 63) & ~size_t(63);
		base = reinterpret_cast<T *>(aligned_alloc(64, bytes));
		for (size_t i = 0; i < bytes / sizeof(T); ++i) base[i] = 0x5a;
		p = base + G + mis;
	}
	~Buf() { free(base); }
	bool intact()
	{
		for (T *q = base; q < p; ++q) if (*q != 0x5a) return false;
		for (int i = 0; i < G / 2; ++i) if (p[n + i] != 0x5a) return false;
		return true;
	}
};
template <int M, int P, typename T>
struct Run
{
	typedef GaloisField<M, P, T> GF;
	typedef typename GF::ValueType V;
	typedef std::vector<int> Vec;
	static CauchyReedSolomonErasureCoding<GF> *crs;
	Rng rng;
	int form = 0;
	Run(int k) : rng(k + M * 1000 + P) { if (!crs) crs = opaque(new CauchyReedSolomonErasureCoding<GF>()); }
	void enc(const T *data, T *block, int id, int len, int cnt)
	{
		switch (form++ % 3) {
		case 0: crs->encode(data, block, id, len, cnt); break;
		case 1: crs->encode(reinterpret_cast<const void *>(data), reinterpret_cast<void *>(block), id, len * sizeof(T), cnt); break;
		case 2: crs->encode(reinterpret_cast<const V *>(data), reinterpret_cast<V *>(block), id, len, cnt); break;
		}
	}
	void dec(T *data, const T *blocks, const T *ids, int idx, int len, int cnt)
	{
		switch (form++ % 3) {
		case 0: crs->decode(data, blocks, ids, idx, len, cnt); break;
		case 1: crs->decode(reinterpret_cast<void *>(data), reinterpret_cast<const void *>(blocks), ids, idx, len * int(sizeof(T)), cnt); break;
		case 2: crs->decode(reinterpret_cast<V *>(data), reinterpret_cast<const V *>(blocks), reinterpret_cast<const V *>(ids), idx, len, cnt); break;
		}
	}
	/* subsets: sequences of identifiers to decode from; logged: how many encodings to validate */
	void session(int cnt, int len, int kind, const std::vector<Vec> &subsets, int logged, bool all)
	{
		bool aligned = rng.one_in(2);
		Buf<T> data(cnt * len, aligned ? 0 : rng.in(0, 31));
		for (int i = 0; i < cnt * len; ++i)
			data.p[i] = kind == 0 ? i & GF::N : kind == 1 ? rng.in(0, GF::N) : kind == 2 ? GF::N : rng.one_in(3) ? rng.in(0, GF::N) : rng.one_in(2) ? T(1 << rng.in(0, M-1)) : 0;
		if (kind == 4)
			for (int i = 0; i < cnt * len; ++i) data.p[i] = i % 64 < 4 * 16 ? ((i % 16) << (4 * ((i / 16) % 4))) & GF::N : 0;
		Vec flat(data.p, data.p + cnt * len);
		std::string blocks = "[";
		for (int k = 0; k < cnt; ++k) {
			blocks += k ? ",[" : "[";
			for (int i = 0; i < len; ++i) blocks += (i ? "," : "") + std::to_string(flat[k * len + i]);
			blocks += "]";
		}
		Ev b("Begin");
		b.i("M", M).i("P", P).i("w", 1 + logged * cnt * len / 100);
		b.s += ",\"data\":" + blocks + "]";
		b.end();
		auto encode = [&](int id, T *where) {
			bool al = rng.one_in(2);
			doing("encode M=%d id=%d len=%d cnt=%d", M, id, len, cnt);
			Buf<T> out(len, al ? 0 : rng.in(0, 31));
			for (int i = 0; i < len; ++i) out.p[i] = rng.in(0, GF::N);
			enc(data.p, out.p, id, len, cnt);
			bool ok = out.intact() && data.intact() && std::equal(flat.begin(), flat.end(), data.p);
			if (logged > 0) {
				--logged;
				Ev("Encode").i("id", id).p("out", out.p, len).b("intact", ok).end();
			} else if (!ok) vt_mismatch("CRS encode id=%d len=%d cnt=%d touched other memory", id, len, cnt);
			if (where) std::copy(out.p, out.p + len, where);
		};
		if (all)
			for (int id = cnt; id <= int(GF::N); ++id) encode(id, nullptr);
		for (auto &sub : subsets) {
			Buf<T> chunks(cnt * len, aligned ? 0 : rng.in(0, 31));
			std::vector<T> ids(sub.begin(), sub.end());
			for (int k = 0; k < cnt; ++k) encode(sub[k], chunks.p + k * len);
			Vec before(chunks.p, chunks.p + cnt * len);
			Vec idx;
			int n = std::min(cnt, 6), start = rng.in(0, cnt - 1);
			for (int k = 0; k < n; ++k) idx.push_back((start + k * (rng.one_in(2) ? 1 : cnt - 1)) % cnt);
			bool ok = true;
			std::string outs = "[";
			for (int k = 0; k < n; ++k) {
				Buf<T> out(len, rng.one_in(2) ? 0 : rng.in(0, 31));
				for (int i = 0; i < len; ++i) out.p[i] = rng.in(0, GF::N);
				doing("decode M=%d idx=%d len=%d cnt=%d", M, idx[k], len, cnt);
				dec(out.p, chunks.p, ids.data(), idx[k], len, cnt);
				ok = ok && out.intact();
				outs += k ? ",[" : "[";
				for (int i = 0; i < len; ++i) outs += (i ? "," : "") + std::to_string(int(out.p[i]));
				outs += "]";
			}
			ok = ok && chunks.intact() && std::equal(before.begin(), before.end(), chunks.p) && std::equal(sub.begin(), sub.end(), ids.begin());
			Ev e("Decode");
			e.a("ids", sub).a("idx", idx).b("intact", ok);
			e.s += ",\"out\":" + outs + "]";
			e.end();
		}
	}
	/* all selections of cnt of the first pool identifiers, in some order */
	std::vector<Vec> subsets(int cnt, int pool, int limit)
	{
		std::vector<Vec> r;
		int top = std::min<int>(GF::N, cnt + pool - 1);
		std::vector<bool> pick(top - cnt + 1);
		if (int(pick.size()) < cnt) return r;
		std::fill(pick.begin(), pick.begin() + cnt, true);
		do {
			Vec s;
			for (size_t i = 0; i < pick.size(); ++i) if (pick[i]) s.push_back(cnt + i);
			if (rng.one_in(2)) for (int i = 0; i < cnt; ++i) std::swap(s[i], s[rng.in(i, cnt - 1)]);
			r.push_back(s);
		} while (int(r.size()) < limit && std::prev_permutation(pick.begin(), pick.end()));
		return r;
	}
	std::vector<Vec> random(int cnt, int n)
	{
		std::vector<Vec> r;
		for (int j = 0; j < n; ++j) {
			Vec s;
			std::vector<bool> used(GF::N + 1);
			while (int(s.size()) < cnt) {
				int id = rng.one_in(8) ? GF::N - rng.in(0, 2 * cnt < int(GF::N) ? cnt : 0) : rng.in(cnt, GF::N);
				if (id >= cnt && !used[id]) { used[id] = true; s.push_back(id); }
			}
			r.push_back(s);
		}
		return r;
	}
};
template <int M, int P, typename T> CauchyReedSolomonErasureCoding<GaloisField<M, P, T>> *Run<M, P, T>::crs;

template <int M, int P, typename T>
static void field(bool wide)
{
	typedef typename Run<M, P, T>::GF GF;
	static GF gf;
	int x = vt_thorough ? 6 : 1;
	/* one block of all symbols with every identifier: every product */
	if (M <= 8) {
		Run<M, P, T> r(1);
		r.session(1, 256, 0, r.subsets(1, GF::N, 40), 1000, true);
		r.session(1, 255, 0, r.subsets(1, GF::N, 20), 20, false);
	} else for (int k = 0; k < 5 * x; ++k) {
		Run<M, P, T> r(1 + k);
		r.session(1, 64, 4, r.random(1, 12), 12, false);
		r.session(1, 63, 4, r.random(1, 4), 4, false);
	}
	/* all selections of small codes */
	for (int cnt = 1; cnt <= 4; ++cnt) {
		Run<M, P, T> r(10 + cnt);
		int len = r.rng.in(1, 20);
		r.session(cnt, len, 1, r.subsets(cnt, vt_thorough ? 10 : 7, 100000), 8, false);
	}
	/* lengths around the vector widths, every kind of data */
	for (int k = 0; k < (wide ? 40 : 12) * x; ++k) {
		Run<M, P, T> r(100 + k);
		static const int L[] = { 1, 15, 16, 17, 31, 32, 33, 48, 64, 80, 96, 5 };
		int cnt = r.rng.in(1, std::min<int>(6, (GF::N + 1) / 2));
		r.session(cnt, L[k % 12], r.rng.in(0, 4), r.random(cnt, 2), M > 8 ? 1 : 4, false);
	}
	/* long blocks */
	for (int len : { 1024, 4096, 33024, 65535, 70016 }) {
		if (M < 8 || (vt_flavour != "avx2" && !vt_thorough && (!wide || len != 33024))) continue;
		Run<M, P, T> r(500 + len);
		r.session(2, len, 1, r.random(2, 1), 1, false);
	}
	/* hundreds of blocks */
	if (M > 8) for (int cnt : { 255, 256, 257, 300, vt_thorough ? 2000 : 700 }) {
		if (vt_flavour != "avx2" && cnt != 300) continue;
		Run<M, P, T> r(3000 + cnt);
		r.session(cnt, cnt == 256 ? 32 : 2, 1, r.random(cnt, 1), 1, false);
	}
	/* many blocks */
	for (int k = 0; k < 5 * x; ++k) {
		Run<M, P, T> r(1000 + k);
		int cnt = std::min<int>((GF::N + 1) / 2, M > 8 ? r.rng.in(20, 60) : k % 2 ? 128 : r.rng.in(5, 100));
		r.session(cnt, k % 2 ? 32 : r.rng.in(1, 8), 1, r.random(cnt, 1), M > 8 ? 1 : 2, false);
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	field<8, 285, uint8_t>(true);
	field<16, 69643, uint16_t>(true);
	field<8, 299, uint16_t>(false);
	field<4, 19, uint8_t>(false);
	field<3, 11, uint8_t>(false);
	return vt_done();
}
