#include "trace.hh"
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"
using namespace CODE;
typedef std::vector<int> Vec;
template <typename T, T P, typename IO, int MAX_LEN>
struct Run
{
	typedef PrimeField<T, P> PF;
	typedef CauchyPrimeFieldErasureCoding<PF, IO, MAX_LEN> CPF;
	static CPF *cpf;
	Rng rng;
	int top;
	Run(int k) : rng(k + P * 1000) { if (!cpf) cpf = opaque(new CPF()); top = std::min<uint64_t>(P - 1, std::numeric_limits<IO>::max()); }
	/* one block whose chunk for the returned identifier holds exactly the given values */
	int aimed(IO *data, const Vec &chunk)
	{
		for (int t = 0; t < 3000; ++t) {
			int id = rng.in(1, P / 2 - 1);
			bool fits = true;
			for (size_t i = 0; fits && i < chunk.size(); ++i) {
				uint64_t v = uint64_t(chunk[i]) * id % P;
				fits = v <= uint64_t(top);
				data[i] = v;
			}
			if (fits) return id;
		}
		return 0;
	}
	/* long chunks of all values, then short ones that leave no small value unused */
	static void crowded()
	{
		Run r(77);
		Rng &rng = r.rng;
		for (int n = 1; n <= MAX_LEN; n += n < 66 ? 1 : rng.in(1, 60)) {
			Run(500 + n).session(1, MAX_LEN, n % 2 ? 0 : 1, r.random(1, 1), 0, false);
			Vec chunk(n);
			for (int i = 0; i < n; ++i) chunk[i] = i;
			if (rng.one_in(2)) chunk[rng.in(0, n - 1)] = P - 1;
			for (int i = n - 1; i > 0; --i) std::swap(chunk[i], chunk[rng.in(0, i)]);
			Guarded<IO> data(n);
			int id = r.aimed(data.data(), chunk);
			if (!id) continue;
			r.given = Vec(data.data(), data.data() + n);
			r.session(1, n, -1, { { id } }, 1, false);
		}
	}
	Vec given;
	void session(int cnt, int len, int kind, const std::vector<Vec> &subsets, int logged, bool all)
	{
		Guarded<IO> data(cnt * len, IO(0x15));
		for (int i = 0; i < cnt * len; ++i) {
			int v;
			switch (kind) {
			case -1: v = given[i]; break;
			case 0: v = i % (top + 1); break;
			case 1: v = rng.in(0, top); break;
			case 2: v = top - rng.in(0, std::min(top, 2)); break;
			case 3: v = rng.one_in(2) ? 0 : top; break;
			default: v = rng.one_in(2) ? rng.in(0, 1) : rng.in(0, top); break;
			}
			data[i] = v;
		}
		/* make one chunk full of the value that does not fit: adjust the first block */
		Vec flat(data.data(), data.data() + cnt * len);
		std::string blocks = "[";
		for (int k = 0; k < cnt; ++k) {
			blocks += k ? ",[" : "[";
			for (int i = 0; i < len; ++i) blocks += (i ? "," : "") + std::to_string(flat[k * len + i]);
			blocks += "]";
		}
		Ev b("Begin");
		b.i("P", P).i("w", 1 + logged * cnt * len / 100);
		b.s += ",\"data\":" + blocks + "]";
		b.end();
		auto encode = [&](int id, IO *where) {
			Guarded<IO> out(len, IO(0x2a));
			for (int i = 0; i < len; ++i) out[i] = rng.in(0, top);
			doing("encode P=%d id=%d len=%d cnt=%d", int(P), id, len, cnt);
			int sub = cpf->encode(data.data(), out.data(), id, len, cnt);
			bool ok = out.intact() && data.intact() && std::equal(flat.begin(), flat.end(), data.data());
			if (logged > 0) {
				--logged;
				Ev("Encode").i("id", id).p("out", out.data(), len).i("sub", sub).b("intact", ok).end();
			} else if (!ok) vt_mismatch("CPF encode id=%d len=%d cnt=%d touched other memory", id, len, cnt);
			if (where) std::copy(out.data(), out.data() + len, where);
			return sub;
		};
		if (all)
			for (int id = cnt; id < int(P) / 2; ++id) encode(id, nullptr);
		for (auto &sel : subsets) {
			Guarded<IO> chunks(cnt * len, IO(3)), ids(cnt, IO(4)), subs(cnt, IO(5));
			for (int k = 0; k < cnt; ++k) { ids[k] = sel[k]; subs[k] = encode(sel[k], chunks.data() + k * len); }
			Vec before(chunks.data(), chunks.data() + cnt * len), sb(subs.data(), subs.data() + cnt);
			Vec idx;
			int n = std::min(cnt, 6), start = rng.in(0, cnt - 1);
			for (int k = 0; k < n; ++k) idx.push_back((start + k) % cnt);
			bool ok = true;
			std::string outs = "[";
			for (int k = 0; k < n; ++k) {
				Guarded<IO> out(len, IO(6));
				doing("decode P=%d idx=%d len=%d cnt=%d", int(P), idx[k], len, cnt);
				cpf->decode(out.data(), chunks.data(), subs.data(), ids.data(), idx[k], len, cnt);
				ok = ok && out.intact();
				outs += k ? ",[" : "[";
				for (int i = 0; i < len; ++i) outs += (i ? "," : "") + std::to_string(int(out[i]));
				outs += "]";
			}
			ok = ok && chunks.intact() && ids.intact() && subs.intact() && std::equal(before.begin(), before.end(), chunks.data())
				&& std::equal(sel.begin(), sel.end(), ids.data()) && std::equal(sb.begin(), sb.end(), subs.data());
			Ev e("Decode");
			e.a("ids", sel).a("idx", idx).b("intact", ok);
			e.s += ",\"out\":" + outs + "]";
			e.end();
		}
	}
	std::vector<Vec> subsets(int cnt, int pool, int limit)
	{
		std::vector<Vec> r;
		int last = std::min<int>(P / 2 - 1, cnt + pool - 1);
		int size = last - cnt + 1;
		if (size < cnt) return r;
		std::vector<bool> pick(size);
		std::fill(pick.begin(), pick.begin() + cnt, true);
		do {
			Vec s;
			for (int i = 0; i < size; ++i) if (pick[i]) s.push_back(cnt + i);
			if (rng.one_in(2)) for (int i = 0; i < cnt; ++i) std::swap(s[i], s[rng.in(i, cnt - 1)]);
			r.push_back(s);
		} while (int(r.size()) < limit && std::prev_permutation(pick.begin(), pick.end()));
		return r;
	}
	std::vector<Vec> random(int cnt, int n)
	{
		std::vector<Vec> r;
		for (int j = 0; j < n; ++j) {
			Vec s;
			std::vector<bool> used(P);
			while (int(s.size()) < cnt) {
				int id = rng.one_in(8) ? int(P) / 2 - 1 - rng.in(0, 4 * cnt < int(P) ? cnt : 0) : rng.in(cnt, P / 2 - 1);
				if (id >= cnt && !used[id]) { used[id] = true; s.push_back(id); }
			}
			r.push_back(s);
		}
		return r;
	}
	/* blocks as long as the code has, a chunk of all values but two */
	static void far()
	{
		for (int k = 0; k < (vt_thorough ? 12 : 3); ++k) {
			Run r(2000 + k);
			if (k < 2) r.session(1 + k, k ? MAX_LEN : MAX_LEN - 1, 0, r.random(1 + k, 1), 1, false);
			int id = r.rng.in(1, P / 2 - 1), bad = 0;
			for (int v = 1; v < int(P); ++v) if (uint64_t(v) * id % P == P - 1) bad = v;
			int two = k == 0 ? int(P) - 2 : r.rng.in(bad, P - 2);
			if (two == bad) two = bad ? bad - 1 : bad + 1;
			Vec chunk;
			for (int v = 0; v < int(P); ++v) if (v != bad && v != two) chunk.push_back(v);
			for (int i = chunk.size() - 1; i > 0; --i) std::swap(chunk[i], chunk[r.rng.in(0, i)]);
			chunk.resize(std::min<int>(chunk.size(), MAX_LEN));
			for (int v : chunk) r.given.push_back(uint64_t(v) * id % P);
			r.session(1, chunk.size(), -1, { { id } }, 1, false);
		}
	}
	/* hundreds of blocks */
	static void numerous()
	{
		int k = 0;
		for (int cnt : { 255, 256, 257, 300, 700, vt_thorough ? 3000 : 1000 }) {
			Run r(3000 + k++);
			r.session(cnt, 2, 1 + k % 3, r.random(cnt, 1), 2, false);
		}
	}
	static void field()
	{
		int x = vt_thorough ? 8 : 1;
		crowded();
		for (int k = 0; k < 3; ++k) {
			Run r(1 + k);
			/* a chunk of one block of all symbols: the value that does not fit occurs for every identifier */
			r.session(1, MAX_LEN, k ? k : 0, r.random(1, 6), k ? 6 : P < 1000 ? 400 : 10, k == 0 && P < 1000);
		}
		/* two blocks aimed at the value that does not fit, alone and often */
		for (int cnt = 1; cnt <= 4; ++cnt) {
			Run r(10 + cnt);
			r.session(cnt, r.rng.in(1, std::min(20, MAX_LEN)), 4, r.subsets(cnt, vt_thorough ? 9 : 7, 100000), 8, false);
			r.session(cnt, std::min(MAX_LEN, 40), 2, r.random_ok(cnt, 3), 6, false);
		}
		for (int k = 0; k < 30 * x; ++k) {
			Run r(100 + k);
			int cnt = r.rng.in(1, std::min<int>(12, P / 4));
			r.session(cnt, r.rng.one_in(3) ? MAX_LEN : r.rng.in(1, MAX_LEN), r.rng.in(0, 4), r.random(cnt, 2), 2, false);
		}
		for (int k = 0; k < 6 * x; ++k) {
			Run r(1000 + k);
			int cnt = std::min<int>(P / 4, k == 0 ? 64 : r.rng.in(13, 250));
			r.session(cnt, r.rng.in(1, std::min(MAX_LEN, 16)), 1 + k % 3, r.random(cnt, 2), 2, false);
		}
	}
	std::vector<Vec> random_ok(int cnt, int n) { return int(P) / 2 >= 2 * cnt ? random(cnt, n) : std::vector<Vec>(); }
};
template <typename T, T P, typename IO, int MAX_LEN> typename Run<T, P, IO, MAX_LEN>::CPF *Run<T, P, IO, MAX_LEN>::cpf;
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Run<uint32_t, 257, uint8_t, 255>::field();
	Run<uint64_t, 65537, uint16_t, 300>::field();
	Run<uint64_t, 65537, uint16_t, 300>::numerous();
	Run<uint64_t, 65537, uint16_t, 65535>::far();
	Run<uint32_t, 17, uint8_t, 15>::field();
	Run<uint32_t, 31, uint8_t, 20>::field();
	Run<uint64_t, 257, uint16_t, 200>::field();
	return vt_done();
}
