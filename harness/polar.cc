/* args: enc | sc | list */
#include "trace.hh"
#include "simd.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
using namespace CODE;
typedef std::vector<int> Vec;
static std::string mode;
struct Frozen
{
	int level, N;
	Vec f;
	Guarded<uint32_t> w;
	Frozen(int level, const Vec &fz) : level(level), N(1 << level), f(fz), w((N + 31) / 32, 0xdeadbeef)
	{
		for (int i = 0; i < (N + 31) / 32; ++i) w[i] = N < 32 ? 0xffffffffu << N : 0;
		for (int i = 0; i < N; ++i) w[i / 32] |= uint32_t(f[i]) << (i % 32);
		copy = w.v;
	}
	std::vector<uint32_t> copy;
	bool same() const { return w.v == copy; }
	int K() const { int k = N; for (int x : f) k -= x; return k; }
	const uint32_t *data() { return w.data(); }
};
/* info positions closed upwards under binary domination, or a difference of two such sets */
static Vec convex(Rng &rng, int level)
{
	int N = 1 << level;
	Vec a(N, 0);
	int gens = rng.in(1, 1 + level);
	for (int g = 0; g < gens; ++g) {
		int x = rng.u64() & rng.u64() & (N - 1);
		if (rng.one_in(2)) x = rng.in(0, N - 1);
		for (int i = 0; i < N; ++i) if ((i & x) == x) a[i] = 1;
	}
	if (rng.one_in(3)) {
		int x = rng.in(1, N - 1);
		Vec b = a;
		int k = 0;
		for (int i = 0; i < N; ++i) { if ((i & x) == x) b[i] = 0; k += b[i]; }
		if (k) a = b;
	}
	for (int &x : a) x = !x;
	return a;
}
/* erasure channel order */
static Vec constructed(Rng &rng, int level)
{
	int N = 1 << level, K = rng.in(1, N);
	std::vector<double> p(N);
	double pe = rng.in(1, 9) / 10.;
	for (int i = 0; i < N; ++i) {
		double x = pe;
		for (int b = level - 1; b >= 0; --b) x = (i >> b) & 1 ? x * x : x * (2 - x);
		p[i] = x;
	}
	Vec idx(N), f(N, 1);
	for (int i = 0; i < N; ++i) idx[i] = i;
	std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return p[a] < p[b]; });
	for (int i = 0; i < K; ++i) f[idx[i]] = 0;
	return f;
}
/* is every position that dominates a free one free? */
static bool upset(const Vec &f)
{
	for (size_t i = 0; i < f.size(); ++i)
		for (size_t b = 1; b < f.size(); b *= 2)
			if (!f[i] && f[i | b]) return false;
	return true;
}
/* anything with at least one free position */
static Vec arbitrary(Rng &rng, int level)
{
	int N = 1 << level;
	Vec f(N);
	switch (rng.in(0, 5)) {
	case 0: for (int &x : f) x = rng.one_in(2); break;
	case 1: { /* whole aligned blocks of one kind, at all scales */
		for (int i = 0; i < N;) {
			int h = 1 << rng.in(0, level > 5 ? 6 : 5);
			while (i % h || i + h > N) h /= 2;
			int v = rng.one_in(2);
			for (int j = 0; j < h; ++j) f[i++] = v;
		}
		break; }
	case 2: { /* mostly one kind */
		int v = rng.one_in(2), d = rng.in(2, 40);
		for (int &x : f) x = rng.one_in(d) ? !v : v;
		break; }
	case 3: return constructed(rng, level);
	case 4: return convex(rng, level);
	case 5: for (int i = 0; i < N; ++i) f[i] = i < int(N * (rng.u64() % 100) / 100); break;
	}
	bool any = false;
	for (int x : f) any = any || !x;
	if (!any) f[rng.in(0, N - 1)] = 0;
	return f;
}
static void begin(const Frozen &fz, int w) { Ev("Begin").a("frozen", fz.f).i("w", w).end(); }
static Vec bits(Rng &rng, int n, int kind)
{
	Vec m(n);
	for (int &x : m) x = kind == 0 ? 1 : kind == 1 ? -1 : rng.one_in(2) ? 1 : -1;
	return m;
}
template <typename T> static Vec run_plain(Frozen &fz, const Vec &m, bool &ok)
{
	Guarded<T> c(fz.N, 5), msg(std::max<int>(m.size(), 1), 6);
	for (size_t i = 0; i < m.size(); ++i) msg[i] = m[i];
	PolarEncoder<T> enc;
	doing("PolarEncoder level %d", fz.level);
	enc(c.data(), msg.data(), fz.data(), fz.level);
	ok = c.intact() && msg.intact() && fz.same();
	for (size_t i = 0; i < m.size(); ++i) ok = ok && msg[i] == m[i];
	Vec v(fz.N);
	for (int i = 0; i < fz.N; ++i) v[i] = int(c[i]);
	return v;
}
template <typename T> static Vec run_sys(Frozen &fz, const Vec &m, bool &ok)
{
	Guarded<T> c(fz.N, 5), msg(std::max<int>(m.size(), 1), 6);
	for (size_t i = 0; i < m.size(); ++i) msg[i] = m[i];
	PolarSysEnc<T> enc;
	doing("PolarSysEnc level %d", fz.level);
	enc(c.data(), msg.data(), fz.data(), fz.level);
	ok = c.intact() && msg.intact() && fz.same();
	for (size_t i = 0; i < m.size(); ++i) ok = ok && msg[i] == m[i];
	Vec v(fz.N);
	for (int i = 0; i < fz.N; ++i) v[i] = int(c[i]);
	return v;
}
static int paritylen(Frozen &fz, int stride, int first)
{
	int n = 0, c = first;
	for (int x : fz.f) if (!x) { if (c) { ++n; --c; } else c = stride; }
	return n;
}
template <typename T> static Vec run_par(Frozen &fz, const Vec &m, int stride, int first, bool &ok)
{
	Guarded<T> c(fz.N, 5), msg(std::max<int>(m.size(), 1), 6);
	for (size_t i = 0; i < m.size(); ++i) msg[i] = m[i];
	PolarParityEncoder<T> enc;
	doing("PolarParityEncoder level %d", fz.level);
	enc(c.data(), msg.data(), fz.data(), fz.level, stride, first);
	ok = c.intact() && msg.intact() && fz.same();
	for (size_t i = 0; i < m.size(); ++i) ok = ok && msg[i] == m[i];
	Vec v(fz.N);
	for (int i = 0; i < fz.N; ++i) v[i] = int(c[i]);
	return v;
}
static int pick_stride(Rng &rng, int free)
{
	static const int S[] = { 0, 1, 2, 3, 5, 8, 13, 31, 100 }, L[] = { 127, 128, 255, 256, 257, 300, 511, 512, 513, 1000 };
	if (free > 128 && rng.one_in(2))
		return rng.one_in(3) ? rng.in(0, free) : L[rng.in(0, 9)];
	return S[rng.in(0, 8)];
}
static void encoders()
{
	for (int level = 1; level <= (vt_thorough ? 12 : 10); ++level) {
		Rng rng(level);
		int sets = level < 4 ? 12 : level < 8 ? 8 : 3;
		for (int s = 0; s < sets * (vt_thorough ? 8 : 1); ++s) {
			bool sys = s % 2;
			Vec f = sys ? constructed(rng, level) : arbitrary(rng, level);
			if (sys && (rng.one_in(2) || !upset(f))) f = convex(rng, level);
			Frozen fz(level, f);
			begin(fz, 3 << std::min(2 * level, 14));
			int K = fz.K();
			for (int t = 0; t < 4; ++t) {
				Vec m = bits(rng, K, t + (rng.one_in(2) ? 2 : 0));
				bool ok;
				Vec c = rng.one_in(2) ? run_plain<int8_t>(fz, m, ok) : run_plain<float>(fz, m, ok);
				Ev("Plain").a("msg", m).a("code", c).b("intact", ok).end();
				if (sys) {
					c = rng.one_in(2) ? run_sys<int8_t>(fz, m, ok) : run_sys<float>(fz, m, ok);
					Ev("Systematic").a("msg", m).a("code", c).b("intact", ok).end();
				}
				int stride = pick_stride(rng, K), first = pick_stride(rng, K);
				Vec pm = bits(rng, paritylen(fz, stride, first), t);
				c = rng.one_in(2) ? run_par<int8_t>(fz, pm, stride, first, ok) : run_par<float>(fz, pm, stride, first, ok);
				Ev("Parity").a("msg", pm).i("stride", stride).i("first", first).a("code", c).b("intact", ok).end();
			}
		}
	}
	/* a few free positions of large codes, samples of the codeword */
	for (int level = 11; level <= 20; ++level) {
		Rng rng(level * 31);
		for (int s = 0; s < (vt_thorough ? 12 : 3); ++s) {
			int N = 1 << level, x = 0;
			std::vector<bool> isfree(N);
			if (s % 3 == 2) { /* all positions that dominate one */
				for (x = N - 1; __builtin_popcount(x) > level - 5;) x &= ~(1 << rng.in(0, level - 1));
				for (int i = 0; i < N; ++i) isfree[i] = (i & x) == x;
			} else {
				for (int k = rng.in(1, 40); k > 0; --k) isfree[rng.one_in(3) ? N - 1 - rng.in(0, 99) : rng.in(0, N - 1)] = 1;
				isfree[N - 1] = rng.one_in(2) || isfree[N - 1];
			}
			Vec f(N), free;
			for (int i = 0; i < N; ++i) { f[i] = !isfree[i]; if (isfree[i]) free.push_back(i); }
			if (free.empty()) continue;
			Frozen fz(level, f);
			begin(Frozen(1, Vec(2, 1)), 300);
			auto sample = [&](const char *name, const Vec &m, const Vec &c, int stride, int first, bool ok) {
				Vec at, val;
				for (int p : free) { at.push_back(p); val.push_back(c[p]); }
				for (int k = 0; k < 100; ++k) {
					int p = k < level ? 1 << k : k < 2 * level ? N - 1 - (1 << (k - level)) : rng.in(0, N - 1);
					at.push_back(p); val.push_back(c[p]);
				}
				Ev(name).i("n", N).a("free", free).a("msg", m).a("at", at).a("val", val).i("stride", stride).i("first", first).b("intact", ok).end();
			};
			bool ok;
			Vec m = bits(rng, free.size(), 2), c = s % 2 ? run_plain<int8_t>(fz, m, ok) : run_plain<float>(fz, m, ok);
			sample("FarPlain", m, c, 0, free.size(), ok);
			int stride = pick_stride(rng, free.size()), first = pick_stride(rng, free.size());
			m = bits(rng, paritylen(fz, stride, first), 2);
			c = s % 2 ? run_par<int8_t>(fz, m, stride, first, ok) : run_par<float>(fz, m, stride, first, ok);
			sample("FarParity", m, c, stride, first, ok);
			if (s % 3 == 2) {
				m = bits(rng, free.size(), 2);
				c = s % 2 ? run_sys<int8_t>(fz, m, ok) : run_sys<float>(fz, m, ok);
				sample("FarSystematic", m, c, x, 0, ok);
			}
		}
	}
	/* nothing but a prefix frozen: thousands of bits between parity positions */
	for (int level = 9; level <= 20; ++level) {
		Rng rng(level * 37);
		for (int s = 0; s < (vt_thorough ? 20 : 4); ++s) {
			int N = 1 << level, z = s ? rng.in(0, N - 1) : 0;
			if (s % 2) z /= 16;
			Vec f(N);
			for (int i = 0; i < z; ++i) f[i] = 1;
			Frozen fz(level, f);
			int F = N - z, big = std::min(F, 1 << rng.in(7, 20));
			int stride = rng.one_in(3) ? rng.in(1, F) : std::max(1, big + (int)rng.in(-1, 1)), first = rng.one_in(2) ? rng.in(0, F) : rng.one_in(2) ? 0 : stride;
			int K = paritylen(fz, stride, first);
			if (!K) continue;
			begin(Frozen(1, Vec(2, 1)), 300);
			Vec m(K, 1), minus, at, val;
			std::vector<int> places = { 0, K - 1, first - 1, first, first + stride - 1, first + stride, 255, 256, 65535, 65536 };
			for (int k = 0; k < 20; ++k) places.push_back(rng.in(0, K - 1));
			for (int p : places) if (p >= 0 && p < K && m[p] == 1 && rng.one_in(2)) { m[p] = -1; minus.push_back(p); }
			bool ok;
			Vec c = s % 2 ? run_par<int8_t>(fz, m, stride, first, ok) : run_par<float>(fz, m, stride, first, ok);
			for (int k = 0; k < 150; ++k) {
				int p = k < level ? 1 << k : k < 2 * level ? N - 1 - (1 << (k - level)) : k < 100 ? rng.in(0, N - 1) : N - 1;
				/* more that see few */
				if (k >= 100 && !minus.empty()) { p = std::min(N - 1, z + minus[rng.in(0, minus.size() - 1)] + (int)rng.in(0, 3)); if (rng.one_in(2)) p |= 1 << rng.in(0, level - 1); }
				at.push_back(p); val.push_back(c[p]);
			}
			for (int g = 0, p = z + first; p < N && g < 20; ++g, p += stride + 1) { at.push_back(p); val.push_back(c[p]); }
			Ev("VastParity").i("n", N).i("frozen", z).i("len", K).a("minus", minus).a("at", at).a("val", val).i("stride", stride).i("first", first).b("intact", ok).end();
		}
	}
	/* every frozen set of small codes */
	for (int level = 1; level <= 3; ++level)
		for (int f = 0; f < (1 << (1 << level)); ++f) {
			Rng rng(f * 10 + level + 1000);
			Vec v(1 << level);
			for (int i = 0; i < (1 << level); ++i) v[i] = (f >> i) & 1;
			Frozen fz(level, v);
			begin(fz, 20);
			Vec m = bits(rng, fz.K(), 2);
			bool ok;
			Vec c = run_plain<int8_t>(fz, m, ok);
			Ev("Plain").a("msg", m).a("code", c).b("intact", ok).end();
		}
}
/* soft values; amp 0: full range */
static Vec soften(Rng &rng, const Vec &code, int lo, Vec &clean, const Vec &m)
{
	int n = code.size(), amp = rng.one_in(2) ? 127 : rng.in(1, 20), kind = rng.in(0, 8), pct = rng.in(1, 20);
	Vec v(n);
	clean.clear();
	for (int i = 0; i < n; ++i) {
		int x = code[i];
		switch (kind) {
		case 0: x *= amp; break;
		case 1: x *= rng.in(1, amp); break;
		case 2: x *= amp; if (rng.in(0, 99) < pct) x = -x; break;
		case 3: x *= rng.in(0, amp); if (rng.in(0, 99) < pct) x = -x; break;
		case 4: x = rng.in(-amp, amp); break;
		case 5: x = rng.in(0, 99) < 4 * pct ? 0 : x * rng.in(1, amp); break;
		case 6: x = rng.in(-1, 1); break;
		case 7: x = x * rng.in(-amp / 4, amp) + rng.in(-3, 3); break;
		case 8: x = rng.one_in(2) ? 127 : lo; break;
		}
		v[i] = std::max(lo, std::min(127, x));
	}
	if (kind == 0 || kind == 1) clean = m;
	return v;
}
/* decoding of floats does not depend on the scale; kept exact */
static void scale(Rng &rng, Vec &v)
{
	if (!rng.one_in(2)) return;
	int s = (1 << (rng.one_in(2) ? 16 : 20)) / v.size();
	for (int &x : v) x *= s;
}
template <typename T, int M> struct Dec { static PolarDecoder<T, M> *dec; };
template <typename T, int M> PolarDecoder<T, M> *Dec<T, M>::dec;
template <typename T, int M> static void sc_scalar(Frozen &fz, Rng &rng, const char *ar, int lo)
{
	if (!Dec<T, M>::dec) Dec<T, M>::dec = opaque(new PolarDecoder<T, M>);
	int K = fz.K();
	Vec m = bits(rng, K, rng.in(0, 6)), clean;
	bool ok;
	Vec v = soften(rng, run_plain<T>(fz, m, ok), lo, clean, m);
	if (sizeof(T) > 1) scale(rng, v);
	Guarded<T> c(fz.N, 5), out(std::max(K, 1), 9);
	for (int i = 0; i < fz.N; ++i) c[i] = v[i];
	doing("PolarDecoder<%s> level %d", ar, fz.level);
	(*Dec<T, M>::dec)(out.data(), c.data(), fz.data(), fz.level);
	ok = c.intact() && out.intact() && fz.same();
	for (int i = 0; i < fz.N; ++i) ok = ok && c[i] == v[i];
	Vec r(K);
	for (int i = 0; i < K; ++i) r[i] = int(out[i]);
	Ev("SC").str("ar", ar).a("soft", v).a("msg", r).a("clean", clean).b("intact", ok).end();
}
template <typename V, int W, int M> static void sc_simd(Frozen &fz, Rng &rng, const char *ar, int lo)
{
	typedef SIMD<V, W> T;
	if (!Dec<T, M>::dec) Dec<T, M>::dec = opaque(new PolarDecoder<T, M>);
	int K = fz.K();
	std::vector<Vec> soft(W), clean(W);
	bool ok;
	T *c = new T[fz.N], *out = new T[K + 2];
	for (int k = 0; k < W; ++k) {
		Vec m = bits(rng, K, 2);
		soft[k] = soften(rng, run_plain<int8_t>(fz, m, ok), lo, clean[k], m);
		if (sizeof(V) > 1) scale(rng, soft[k]);
		for (int i = 0; i < fz.N; ++i) c[i].v[k] = soft[k][i];
		for (int i = 0; i < K + 2; ++i) out[i].v[k] = 9;
	}
	doing("PolarDecoder<SIMD %s> level %d", ar, fz.level);
	(*Dec<T, M>::dec)(out + 1, c, fz.data(), fz.level);
	for (int t = 0; t < 2; ++t) {
		int k = rng.in(0, W - 1);
		Vec r(K);
		ok = out[0].v[k] == 9 && out[K + 1].v[k] == 9 && fz.same();
		for (int i = 0; i < fz.N; ++i) ok = ok && c[i].v[k] == soft[k][i];
		for (int i = 0; i < K; ++i) r[i] = int(out[i + 1].v[k]);
		Ev("SC").str("ar", ar).a("soft", soft[k]).a("msg", r).a("clean", clean[k]).b("intact", ok).end();
	}
	delete[] c;
	delete[] out;
}
/* A block of 2^m positions within 2^n, all others frozen.  Where the way to it goes right, the
   soft values of both halves add up to those of the block, where it goes left the smaller of the
   two counts and their signs multiply: decoding must do what it does with the block alone. */
static void embed(Rng &rng, int level, int m, int where, const Vec &f, const Vec &s, Vec &ff, Vec &ss)
{
	ff.assign(1 << level, 1);
	ss.assign(1 << level, 0);
	for (int i = 0; i < 1 << m; ++i) ff[(where << m) + i] = f[i];
	Vec cur = s, nxt;
	for (int b = 0; b < level - m; ++b) {
		int n = cur.size(), way = (where >> b) & 1;
		nxt.assign(2 * n, 0);
		for (int i = 0; i < n; ++i) {
			int x = cur[i];
			if (way) {
				int a = rng.one_in(4) ? rng.in(std::max(-127, x - 127), std::min(127, x + 127)) : rng.one_in(2) ? 0 : x;
				nxt[i] = a;
				nxt[i + n] = x - a;
			} else {
				int o = rng.in(std::abs(x), 127), swap = rng.one_in(2), sg = rng.one_in(2) ? -1 : 1;
				nxt[i] = sg * (swap ? x : o);
				nxt[i + n] = sg * (swap ? o : x);
			}
		}
		cur = nxt;
	}
	ss = cur;
}
template <typename T, int M, typename D> static void sc_vast(D dec, int W, Rng &rng, int level, const char *ar)
{
	int m = rng.in(6, 7);
	Vec f = arbitrary(rng, m), ff, ss, clean;
	Frozen fz(m, f);
	begin(fz, 10 * m << m);
	bool ok;
	Vec s = soften(rng, run_plain<int8_t>(fz, bits(rng, fz.K(), 2), ok), -127, clean, Vec());
	int where = rng.one_in(3) ? rng.one_in(2) ? 0 : (1 << (level - m)) - 1 : rng.in(0, (1 << (level - m)) - 1);
	embed(rng, level, m, where, f, s, ff, ss);
	Frozen big(level, ff);
	Vec r(fz.K());
	doing("PolarDecoder<%s> level %d block %d of 2^%d", ar, level, where, m);
	dec(r, ss, big, ok);
	Ev("SC").str("ar", ar).a("soft", s).a("msg", r).a("clean", Vec()).b("intact", ok && big.same()).end();
}
static void vast()
{
	Rng rng(2020);
	static PolarDecoder<int8_t, 20> *sca = opaque(new PolarDecoder<int8_t, 20>);
	static PolarDecoder<float, 20> *flt = opaque(new PolarDecoder<float, 20>);
	static PolarDecoder<SIMD<int8_t, 16>, 18> *vec = opaque(new PolarDecoder<SIMD<int8_t, 16>, 18>);
	for (int round = 0; round < (vt_thorough ? 12 : 2); ++round)
	for (int level = 11; level <= 20; ++level) {
		sc_vast<int8_t, 20>([&](Vec &r, const Vec &ss, Frozen &big, bool &ok) {
			Guarded<int8_t> c(big.N, 5), out(r.size(), 9);
			for (int i = 0; i < big.N; ++i) c[i] = ss[i];
			(*sca)(out.data(), c.data(), big.data(), level);
			for (size_t i = 0; i < r.size(); ++i) r[i] = out[i];
			ok = c.intact() && out.intact();
		}, 1, rng, level, "i8");
		sc_vast<float, 20>([&](Vec &r, const Vec &ss, Frozen &big, bool &ok) {
			Guarded<float> c(big.N, 5), out(r.size(), 9);
			for (int i = 0; i < big.N; ++i) c[i] = ss[i];
			(*flt)(out.data(), c.data(), big.data(), level);
			for (size_t i = 0; i < r.size(); ++i) r[i] = out[i];
			ok = c.intact() && out.intact();
		}, 1, rng, level, "fl");
		if (level > 18) continue;
		sc_vast<SIMD<int8_t, 16>, 18>([&](Vec &r, const Vec &ss, Frozen &big, bool &ok) {
			typedef SIMD<int8_t, 16> T;
			Guarded<T> c(big.N, T()), out(r.size(), T());
			int k = rng.in(0, 15);
			for (int i = 0; i < big.N; ++i) for (int j = 0; j < 16; ++j) c[i].v[j] = j == k ? ss[i] : (i * j) % 113 - 50;
			(*vec)(out.data(), c.data(), big.data(), level);
			for (size_t i = 0; i < r.size(); ++i) r[i] = out[i].v[k];
			ok = true;
		}, 16, rng, level, "v8");
	}
}
static void successive()
{
	const int M = 10;
	for (int level = 5; level <= 10; ++level) {
		Rng rng(level + 50);
		int sets = level <= 7 ? 40 : level == 8 ? 16 : 4;
		for (int s = 0; s < sets * (vt_thorough ? 10 : 1); ++s) {
			Frozen fz(level, arbitrary(rng, level));
			begin(fz, 10 * level << level);
			sc_scalar<int8_t, M>(fz, rng, "i8", -128);
			sc_scalar<float, M>(fz, rng, "fl", -128);
			sc_simd<int8_t, 32, M>(fz, rng, "v8", -128);
			sc_simd<int8_t, 16, M>(fz, rng, "v8", -128);
			sc_scalar<int8_t, M>(fz, rng, "i8", -128);
			if (s % 4 == 0) sc_simd<float, 8, M>(fz, rng, "fl", -128);
			if (s % 4 == 1) sc_simd<int8_t, 3, M>(fz, rng, "v8", -128);
		}
	}
}
template <typename V, int L, int M> struct LDec { static PolarListDecoder<SIMD<V, L>, M> *dec; static PolarParityDecoder<SIMD<V, L>, M> *par; };
template <typename V, int L, int M> PolarListDecoder<SIMD<V, L>, M> *LDec<V, L, M>::dec;
template <typename V, int L, int M> PolarParityDecoder<SIMD<V, L>, M> *LDec<V, L, M>::par;
template <typename V, int L, int M> static void list_one(Frozen &fz, Rng &rng, bool aided, const Vec *given = nullptr, int gs = 0, int gf = -1, int level = 0)
{
	/* level: within a code that large, see embed() */
	typedef SIMD<V, L> T;
	auto &dec = LDec<V, L, M>::dec;
	auto &par = LDec<V, L, M>::par;
	if (!dec) { dec = opaque(new PolarListDecoder<T, M>); par = opaque(new PolarParityDecoder<T, M>); }
	int stride = gs ? gs : pick_stride(rng, fz.K()), first = gf >= 0 ? gf : pick_stride(rng, fz.K());
	int K = aided ? paritylen(fz, stride, first) : fz.K();
	if (K == 0) return;
	Vec m = bits(rng, K, rng.in(0, 6)), clean;
	bool ok;
	Vec code = aided ? run_par<int8_t>(fz, m, stride, first, ok) : run_plain<int8_t>(fz, m, ok);
	Vec v = given ? *given : soften(rng, code, -128, clean, m);
	if (given) clean.clear();
	else if (sizeof(V) > 1 && !level) scale(rng, v);
	Frozen *code_fz = &fz, big(level ? level : 1, Vec(level ? 1 << level : 2, 1));
	Vec w = v;
	if (level) {
		Vec ff;
		if (sizeof(V) == 1) for (int &x : v) x = std::max(x, -127);
		embed(rng, level, fz.level, (1 << (level - fz.level)) - 1, fz.f, v, ff, w);
		for (int i = 0; i < big.N; ++i) if (!ff[i]) big.w[i / 32] &= ~(1u << (i % 32));
		big.copy = big.w.v;
		code_fz = &big;
	}
	int n = code_fz->N;
	/* -128 and int8_t paths: the sum of metrics stays small */
	Guarded<V> c(n, 5);
	Guarded<int> rank(L, 12345);
	for (int i = 0; i < n; ++i) c[i] = w[i];
	T *out = new T[K + 2];
	for (int i = 0; i < K + 2; ++i) for (int k = 0; k < L; ++k) out[i].v[k] = k + 5;
	bool norank = rng.one_in(8);
	doing("%s<%d> level %d stride %d first %d", aided ? "PolarParityDecoder" : "PolarListDecoder", L, code_fz->level, stride, first);
	if (aided) (*par)(norank ? nullptr : rank.data(), out + 1, c.data(), code_fz->data(), code_fz->level, stride, first);
	else (*dec)(norank ? nullptr : rank.data(), out + 1, c.data(), code_fz->data(), code_fz->level);
	ok = c.intact() && rank.intact() && code_fz->same();
	for (int i = 0; i < n; ++i) ok = ok && c[i] == V(w[i]);
	for (int k = 0; k < L; ++k) ok = ok && out[0].v[k] == k + 5 && out[K + 1].v[k] == k + 5;
	Ev e(aided ? "Aided" : "List");
	e.str("ar", sizeof(V) == 1 ? "v8" : "fl").i("L", L).a("soft", v).a("clean", clean);
	if (aided) e.i("stride", stride).i("first", first);
	e.p("rank", rank.data(), norank ? 0 : L);
	e.s += ",\"msgs\":[";
	for (int k = 0; k < L; ++k) {
		e.s += k ? ",[" : "[";
		for (int i = 0; i < K; ++i) e.s += (i ? "," : "") + std::to_string(int(out[i + 1].v[k]));
		e.s += "]";
	}
	e.s += "]";
	e.b("intact", ok).end();
	delete[] out;
}
template <typename V, int L, int M> static void list_both(Frozen &fz, Rng &rng)
{
	if (mode == "list" || mode == "all") { list_one<V, L, M>(fz, rng, false); list_one<V, L, M>(fz, rng, true); }
}
static void lists()
{
	const int M = 9;
	for (int level = 5; level <= (vt_thorough ? 9 : 8); ++level) {
		Rng rng(level + 90);
		int sets = level == 5 ? 30 : level == 6 ? 16 : level == 7 ? 7 : 3;
		for (int s = 0; s < sets * (vt_thorough ? 10 : 1); ++s) {
			Frozen fz(level, arbitrary(rng, level));
			auto b = [&](int w) { begin(fz, (w * level) << level); };
			b(2); list_both<int8_t, 2, M>(fz, rng);
			b(4); list_both<int8_t, 4, M>(fz, rng);
			b(16); list_both<int8_t, 16, M>(fz, rng);
			if (s % 2 == 0) { b(32); list_both<int8_t, 32, M>(fz, rng); }
			if (s % 3 == 0) { b(4); list_both<float, 4, M>(fz, rng); }
			if (s % 3 == 1) { b(8); list_both<float, 8, M>(fz, rng); }
			if (s % 4 == 2) { b(1); list_both<int8_t, 1, M>(fz, rng); }
			if (s % 4 == 3) { b(64); list_both<int8_t, 64, M>(fz, rng); }
		}
	}
}
/* few free positions and strong values: metrics grow and spread before the list is full */
static Vec few(Rng &rng, int level, int k)
{
	int N = 1 << level;
	Vec f(N, 1);
	int least = rng.in(0, level / 2);
	for (int i = 0; i < k;) {
		int p = rng.in(0, N - 1);
		if (__builtin_popcount(p) < least || !f[p]) continue;
		f[p] = 0;
		++i;
	}
	return f;
}
template <typename V, int L, int M> static void sparse_one(Frozen &fz, Rng &rng, bool aided)
{
	int flips = rng.in(2, 12), amp = sizeof(V) > 1 ? (1 << 23) / fz.N : 127;
	if (rng.one_in(4)) amp = rng.in(40, amp);
	Vec m = bits(rng, fz.K(), rng.in(0, 3));
	bool ok;
	Vec v = run_plain<int8_t>(fz, m, ok);
	for (int &x : v) x *= rng.one_in(flips) ? -amp : amp;
	list_one<V, L, M>(fz, rng, aided, &v, aided ? rng.in(1, 3) : 1, aided ? rng.in(0, 3) : 1);
}
static void sparse()
{
	const int M = 11;
	Rng rng(333);
	for (int s = 0; s < (vt_thorough ? 200 : 14); ++s) {
		int level = s % 7 + 5;
		Frozen fz(level, few(rng, level, rng.in(2, 9)));
		auto b = [&](int w) { begin(fz, (w * level) << level); };
		for (int aided = 0; aided < 2; ++aided) {
			b(16); sparse_one<int8_t, 16, M>(fz, rng, aided);
			b(4); sparse_one<float, 4, M>(fz, rng, aided);
			b(4); sparse_one<int8_t, 4, M>(fz, rng, aided);
			if (s % 3 == 0) { b(32); sparse_one<int8_t, 32, M>(fz, rng, aided); }
			if (s % 3 == 1) { b(8); sparse_one<float, 8, M>(fz, rng, aided); }
		}
	}
}
/* few positions at the end of large codes */
static void far()
{
	Rng rng(8080);
	for (int round = 0; round < (vt_thorough ? 12 : 2); ++round)
	for (int level = 10; level <= 16; ++level) {
		int m = rng.in(5, 6);
		Frozen fz(m, arbitrary(rng, m));
		auto b = [&](int w) { begin(fz, (w * m) << m); };
		for (int aided = 0; aided < 2; ++aided) {
			b(4); list_one<int8_t, 4, 16>(fz, rng, aided, nullptr, 0, -1, level);
			b(16); list_one<int8_t, 16, 16>(fz, rng, aided, nullptr, 0, -1, level);
			b(4); list_one<float, 4, 16>(fz, rng, aided, nullptr, 0, -1, level);
		}
	}
}
/* every level there is */
static void top()
{
	Rng rng(777);
	for (int level = 9; level <= 16; ++level) {
		if (level > 13 && !vt_thorough && level != 16) continue;
		for (int s = 0; s < (level < 12 ? 2 : 1); ++s) {
			Frozen fz(level, s ? arbitrary(rng, level) : constructed(rng, level));
			begin(fz, (10 * level) << level);
			if (mode == "sc") {
				sc_scalar<int8_t, 16>(fz, rng, "i8", -128);
				if (level < 12) sc_simd<int8_t, 32, 16>(fz, rng, "v8", -128);
			} else {
				list_one<int8_t, 2, 16>(fz, rng, level & 1);
				if (level < 14) list_one<int8_t, 2, 16>(fz, rng, ~level & 1);
			}
		}
	}
}
/* hundreds of bits between parity positions */
static void strides()
{
	static const int S[] = { 255, 256, 257, 300, 511, 512, 600 };
	Rng rng(999);
	for (int s = 0; s < (vt_thorough ? 42 : 7); ++s) {
		int level = s % 3 == 2 ? 11 : 10, N = 1 << level, stride = S[s % 7];
		Vec f(N, 0);
		/* mostly free, so that there are several parity positions */
		for (int i = 0, z = rng.in(0, N / 4); i < z; ++i) f[i] = 1;
		for (int k = rng.in(0, N / 10); k > 0; --k) f[rng.in(0, N - 1)] = 1;
		Frozen fz(level, f);
		begin(fz, (10 * level) << level);
		int first = s % 2 ? stride : rng.one_in(2) ? rng.in(0, 300) : S[rng.in(0, 6)];
		if (s % 3) list_one<int8_t, 2, 16>(fz, rng, true, nullptr, stride, first);
		else list_one<float, 4, 11>(fz, rng, true, nullptr, stride, first);
	}
}
/* so much noise that metrics exceed the penalties given to unused and forbidden paths */
static void huge()
{
	const int level = 15, N = 1 << level;
	Rng rng(4711);
	Vec f(N, 1), v(N);
	for (int k = 0; k < 60; ++k) f[N - 1 - (rng.in(0, 1 << rng.in(1, level)) % N)] = 0;
	for (int &x : v) x = rng.one_in(2) ? 127 : -127;
	Frozen fz(level, f);
	begin(fz, 1 << 24);
	if (fz.K() < 20) exit(3);
	list_one<int8_t, 2, 15>(fz, rng, true, &v, 3, 4);
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	mode = argc > 2 ? argv[2] : "enc";
	if (mode == "enc") encoders();
	if (mode == "sc") { successive(); vast(); top(); }
	if (mode == "list") { lists(); sparse(); far(); top(); strides(); }
	if (mode == "huge") huge();
	return vt_done();
}
