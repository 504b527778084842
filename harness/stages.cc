/* Stages of algebraic decoding: PART 0 = small fields, 1 = larger ones, 2 = the largest
 * NO_FINDER, NO_SEARCH, NO_SHORTEST: without the stage of that name, where a rearranged
 * header has it no more: the correction as a whole is what has to stay */
#include "trace.hh"
#include <set>
#include "galois_field.hh"
#include "reed_solomon_error_correction.hh"
using namespace CODE;
typedef std::vector<int> Vec;
template <int M, int P, typename T, int NR, int FCR>
struct Run
{
	typedef GaloisField<M, P, T> GF;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	static const int N = GF::N;
	Rng rng;
#ifndef NO_FINDER
	RS::LocationFinder<NR, GF> *finder;
#endif
	ReedSolomonErrorCorrection<NR, FCR, GF> *engine;
	/* a field of our own: products of polynomials modulo P */
	Vec ex, lg;
	int mul(int a, int b) { return a && b ? ex[(lg[a] + lg[b]) % N] : 0; }
	int pw(long i) { return ex[i % N]; }
	int inv(int a) { return ex[(N - lg[a]) % N]; }
	Run() : rng(M * 1000 + P * 7 + NR * 3 + FCR), ex(N), lg(N + 1)
	{
		for (int i = 0, x = 1; i < N; ++i) { ex[i] = x; lg[x] = i; x *= 2; if (x > N) x ^= P; }
		doing("constructing finder M=%d", M);
#ifndef NO_FINDER
		finder = opaque(new RS::LocationFinder<NR, GF>());
#endif
		engine = opaque(new ReedSolomonErrorCorrection<NR, FCR, GF>());
	}
	void begin(int w = 0)
	{
		Ev e("Begin");
		e.i("M", M).i("P", P).i("NR", NR).i("FCR", FCR);
		if (w) e.i("w", w);
		e.end();
	}
#ifndef NO_FINDER
	int find(const Vec &c, Vec &locs, bool &intact)
	{
		int d = c.size() - 1;
		Guarded<T> g(d + 1, T(3)), out(std::max(d, 1), T(5));
		for (int i = 0; i <= d; ++i) g[i] = c[i];
		for (int i = 0; i < out.n; ++i) out[i] = rng.in(0, N - 1);
		doing("LocationFinder M=%d degree %d: %d %d %d", M, d, c[0], c[1], c[d]);
		int ret = (*finder)(reinterpret_cast<V *>(g.data()), d, reinterpret_cast<I *>(out.data()));
		intact = g.intact() && out.intact();
		for (int i = 0; i <= d; ++i) intact = intact && g[i] == T(c[i]);
		locs = Vec(out.data(), out.data() + out.n);
		return ret;
	}
	/* 1 + b x + a x^2 for all b */
	void quadratics(int a)
	{
		Vec ret, locs;
		bool ok = true, in;
		for (int b = 0; b <= N; ++b) {
			Vec l;
			ret.push_back(find({ 1, b, a }, l, in));
			ok = ok && in;
			for (int x : l) locs.push_back(x);
		}
		Ev("Quadratics").i("a", a).a("ret", ret).a("locs", locs).b("intact", ok).end();
	}
#else
	void quadratics(int) {}
#endif
	Vec times(const Vec &a, const Vec &b)
	{
		Vec r(a.size() + b.size() - 1, 0);
		for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r[i + j] ^= mul(a[i], b[j]);
		return r;
	}
	/* product of (1 - x/root) for some different roots */
	Vec split(int d)
	{
		std::set<int> used;
		Vec c(1, 1);
		bool low = rng.one_in(4), high = rng.one_in(4);
		while ((int)used.size() < d) {
			int k = low ? rng.in(0, std::min(N - 1, 2 * d)) : high ? N - 1 - rng.in(0, std::min(N - 1, 2 * d)) : rng.in(0, N - 1);
			if (used.insert(k).second) c = times(c, { 1, pw(k) });
		}
		return c;
	}
	Vec polynomial(int d, bool whole)
	{
		Vec c;
		switch (whole ? 0 : rng.in(0, 4)) {
		case 0: return split(d);
		case 1: c = split(d - 1); return times(c, { 1, pw(rng.in(0, N - 1)) }); /* maybe a double root */
		case 2: c = Vec(d + 1); for (int &x : c) x = rng.in(0, N); c[0] = 1; break;
		case 3: c = Vec(d + 1, 0); c[0] = 1; break; /* 1 + a x^d */
		case 4: if (d > 2) { c = split(d - 2); return times(c, { 1, (int)rng.in(0, N), (int)rng.in(1, N) }); } c = Vec(d + 1, 1); break;
		}
		c[d] = rng.in(1, N);
		return c;
	}
	void roots(int count, int maxdeg, bool whole)
	{
		for (int k = 0; k < count; ++k) {
			if (k % 8 == 0) begin(whole ? 30 : 1 + N / 100);
			int d = k < 2 ? 1 + k : k == 2 ? maxdeg : whole && k % 2 ? 2 : rng.one_in(3) ? rng.in(1, std::min(4, maxdeg)) : rng.in(1, maxdeg);
			Vec c = polynomial(d, whole && d != 2), locs;
			if (rng.one_in(2)) { int s = rng.in(1, N); for (int &x : c) x = mul(x, s); } /* any constant */
			bool ok;
			int ret;
#ifndef NO_FINDER
			ret = find(c, locs, ok);
			if (ret != d) locs.clear();
			Ev("Find").a("c", c).i("ret", ret).a("locs", locs).b("intact", ok).end();
#endif
#ifndef NO_SEARCH
			if (rng.one_in(2) && !whole) { c[0] = 0; if (d > 1) c[1] = rng.in(0, N); } /* zero is no root that counts */
			Guarded<T> g(d + 1, T(3)), out(d, T(5));
			for (int i = 0; i <= d; ++i) g[i] = c[i];
			doing("Chien search M=%d degree %d", M, d);
			ret = RS::Chien<NR, GF>::search(reinterpret_cast<V *>(g.data()), d, reinterpret_cast<I *>(out.data()));
			ok = g.intact() && out.intact() && ret >= 0 && ret <= d;
			for (int i = 0; i <= d; ++i) ok = ok && g[i] == T(c[i]);
			locs = Vec(out.data(), out.data() + std::max(0, std::min(ret, d)));
			if (!whole || ret == d) Ev("Search").a("c", c).i("ret", ret).a("locs", locs).b("intact", ok).end();
#endif
			(void)ret;
			(void)ok;
		}
	}
	void shortest(Vec s)
	{
#ifndef NO_SHORTEST
		Guarded<T> g(NR, T(3)), c(NR + 1, T(0));
		for (int i = 0; i < NR; ++i) g[i] = s[i];
		for (int i = 0; i <= NR; ++i) c[i] = i == 0;
		doing("BerlekampMassey M=%d NR=%d", M, NR);
		int L = RS::BerlekampMassey<NR, GF>::algorithm(reinterpret_cast<V *>(g.data()), reinterpret_cast<V *>(c.data()));
		bool ok = g.intact() && c.intact();
		for (int i = 0; i < NR; ++i) ok = ok && g[i] == T(s[i]);
		Ev("Shortest").a("s", s).p("c", c.data(), NR + 1).i("ret", L).b("intact", ok).end();
#else
		(void)s;
#endif
	}
	Vec syndromes(const Vec &locs, const Vec &mags)
	{
		Vec s(NR, 0);
		for (size_t k = 0; k < locs.size(); ++k)
			for (int i = 0; i < NR; ++i) s[i] ^= mul(mags[k], pw(long(FCR + i) * (N - 1 - locs[k])));
		return s;
	}
	void solve(const Vec &s, const Vec &era, bool known, const Vec &pl, const Vec &pm)
	{
		bool any = false;
		for (int x : s) any = any || x;
		if (!any) return;
		Guarded<T> g(NR, T(3)), locs(NR, T(4)), mags(NR, T(5)), er(NR, T(6));
		for (int i = 0; i < NR; ++i) { g[i] = s[i]; locs[i] = rng.in(0, N - 1); mags[i] = rng.in(0, N); er[i] = i < (int)era.size() ? era[i] : rng.in(0, N - 1); }
		Guarded<T> was(er);
		std::string t;
		for (int x : s) if (t.size() < 1500) t += " " + std::to_string(x);
		doing("correction M=%d NR=%d FCR=%d erasures=%d syndromes%s", M, NR, FCR, (int)era.size(), t.c_str());
		I *e = era.empty() && rng.one_in(2) ? nullptr : reinterpret_cast<I *>(er.data());
		int ret = (*engine)(reinterpret_cast<V *>(g.data()), reinterpret_cast<I *>(locs.data()), reinterpret_cast<V *>(mags.data()), e, era.size());
		bool ok = g.intact() && locs.intact() && mags.intact() && er.intact() && er.v == was.v;
		for (int i = 0; i < NR; ++i) ok = ok && g[i] == T(s[i]);
		int n = std::max(0, std::min(ret, NR));
		Ev("Solve").a("s", s).a("era", era).i("ret", ret).p("locs", locs.data(), n).p("mags", mags.data(), n).b("known", known).a("pl", pl).a("pm", pm).b("intact", ok).end();
	}
	/* e unmarked errors and f erasures anywhere */
	void pattern(int e, int f)
	{
		Vec pl, pm, era;
		std::set<int> used;
		int style = rng.in(0, 3), start = rng.in(0, N - 1);
		e = std::min(e, N - f);
		for (int k = 0; k < e + f; ++k) {
			int p;
			do p = style == 0 ? (start + k) % N : style == 1 && rng.one_in(2) ? (rng.one_in(2) ? 0 : N - 1) : rng.in(0, N - 1); while (!used.insert(p).second && style != 0);
			pl.push_back(p);
			pm.push_back(rng.in(1, N));
			if (k < f) { era.push_back(p); if (rng.one_in(3)) pm.back() = 0; }
		}
		solve(syndromes(pl, pm), era, 2 * e + f <= NR, pl, pm);
	}
	void patterns(int count, int w = 0)
	{
		for (int k = 0; k < count * (vt_thorough ? 8 : 1); ++k) {
			if (k % 20 == 0) begin(w);
			int f = rng.one_in(2) ? 0 : rng.in(0, NR), cap = (NR - f) / 2;
			switch (rng.in(0, 4)) {
			case 0: pattern(rng.in(0, cap), f); break;
			case 1: case 2: pattern(cap, f); break;
			case 3: pattern(rng.in(cap + 1, cap + 2), f); break;
			case 4: { Vec s(NR), pl; std::set<int> used; for (int &x : s) x = rng.one_in(3) ? 0 : rng.in(0, N);
				while ((int)pl.size() < f) { int p = rng.in(0, N - 1); if (used.insert(p).second) pl.push_back(p); }
				solve(s, pl, false, {}, {}); break; }
			}
			if (k % 4 == 0) {
				Vec s(NR), pl, pm;
				int kind = rng.in(0, 3), e = rng.in(1, std::min(N, NR));
				for (int i = 0; i < e; ++i) { pl.push_back(rng.in(0, N - 1)); pm.push_back(rng.in(1, N)); }
				if (kind == 0) for (int &x : s) x = rng.in(0, N);
				else if (kind == 1) { for (int &x : s) x = 0; s[rng.in(0, NR - 1)] = rng.in(1, N); }
				else s = syndromes(pl, pm);
				shortest(s);
			}
		}
	}
	/* every vector of syndromes, without and with erasures */
	void every(int most)
	{
		int total = 1;
		for (int i = 0; i < NR; ++i) total *= N + 1;
		for (int q = 0; q < total; q += total <= most ? 1 : rng.in(1, 2 * total / most)) {
			if (q % 32 == 0) begin();
			Vec s(NR);
			for (int i = 0, t = q; i < NR; ++i) { s[i] = t % (N + 1); t /= N + 1; }
			shortest(s);
			solve(s, {}, false, {}, {});
			Vec era;
			std::set<int> used;
			for (int k = rng.in(1, std::min(NR, N)); k > 0;) { int p = rng.in(0, N - 1); if (used.insert(p).second) { era.push_back(p); --k; } }
			solve(s, era, false, {}, {});
		}
	}
};
template <typename GF> static void tables()
{
	static GF *field = opaque(new GF());
	(void)field;
}
template <int M, int P, typename T, int NR, int FCR> static Run<M, P, T, NR, FCR> &make()
{
	tables<GaloisField<M, P, T>>();
	static auto *r = opaque(new Run<M, P, T, NR, FCR>());
	return *r;
}
template <int M, int P, typename T, int NR, int FCR> static void small(int most, int count)
{
	auto &r = make<M, P, T, NR, FCR>();
	for (int a = 1; a <= r.N; ++a) { if (a % 16 == 1) r.begin(); r.quadratics(a); }
	r.every(most * (vt_thorough ? 8 : 1));
	r.patterns(count);
	r.roots(60 * (vt_thorough ? 4 : 1), std::min<int>(NR, r.N - 1), false);
}
template <int M, int P, typename T, int NR, int FCR> static void large(int quads, int count, int nroots, bool whole, int w)
{
	auto &r = make<M, P, T, NR, FCR>();
	for (int k = 0; k < quads; ++k) { if (k % 4 == 0) r.begin(r.N / 10); r.quadratics(k == 0 ? 1 : k == 1 ? r.N : r.rng.in(1, r.N)); }
	r.patterns(count, w);
	r.roots(nroots * (vt_thorough ? 4 : 1), std::min<int>(NR, 24), whole);
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
#if PART == 0
	small<2, 7, uint8_t, 2, 0>(999, 40);
	small<2, 7, uint8_t, 1, 1>(999, 20);
	small<3, 11, uint8_t, 3, 1>(999, 40);
	small<3, 13, uint16_t, 4, 6>(500, 80);
	small<3, 11, uint8_t, 6, 2>(500, 80);
	small<4, 19, uint8_t, 5, 0>(400, 120);
	small<4, 25, uint16_t, 4, 1>(400, 80);
	small<5, 37, uint8_t, 7, 30>(300, 120);
	small<5, 61, uint32_t, 6, 1>(300, 80);
#elif PART == 1
	large<6, 67, uint8_t, 9, 1>(63, 120, 60, false, 0);
	large<7, 143, uint8_t, 16, 0>(40, 100, 60, false, 0);
	large<8, 285, uint8_t, 16, 0>(40, 60, 60, false, 0);
	large<8, 285, uint8_t, 32, 112>(0, 40, 60, false, 0);
	large<8, 299, uint16_t, 5, 254>(20, 60, 40, false, 0);
	large<8, 299, uint16_t, 65, 1>(0, 20, 20, false, 40);
#else
	large<9, 529, uint16_t, 12, 1>(4, 40, 16, false, 20);
	large<10, 1033, uint16_t, 7, 3>(4, 40, 16, false, 20);
	large<12, 4179, uint16_t, 10, 1>(0, 40, 8, false, 20);
	large<14, 16427, uint16_t, 6, 0>(0, 30, 40, true, 20);
	large<16, 69643, uint16_t, 8, 1>(0, 30, 40, true, 20);
	large<16, 65581, uint32_t, 5, 65530>(0, 30, 40, true, 20);
	large<10, 1033, uint16_t, 300, 0>(0, 4, 0, true, 400);
#endif
	return vt_done();
}
