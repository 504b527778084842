#include "trace.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
using namespace CODE;
typedef std::vector<int> Vec;
static Vec mant(double v, int &e)
{
	Vec r(4, 0);
	e = -1000000;
	if (v <= 0) return r;
	double m = std::frexp(v, &e);
	uint64_t M = uint64_t(std::ldexp(m, 56));
	for (int k = 0; k < 4; ++k) r[k] = (M >> (42 - 14 * k)) & 16383;
	return r;
}
static const int M = 17;
static PolarFreezer freezer;
static auto best = opaque(new PolarCodeConst0<M>);
static auto sequ = opaque(new PolarSeqConst0<M>);
static void begin(double p, int level, int w)
{
	int e;
	Vec m = mant(p, e);
	Ev("Begin").a("p", m).i("x", e).i("level", level).i("w", w).end();
}
static Vec unpack(Guarded<uint32_t> &b, int N)
{
	Vec f(N);
	for (int i = 0; i < N; ++i) f[i] = (b[i / 32] >> (i % 32)) & 1;
	return f;
}
static void threshold(double p, double th, int level, uint32_t fill, bool defaults = false)
{
	int N = 1 << level, e;
	Guarded<uint32_t> b((N + 31) / 32, fill);
	doing("PolarFreezer level %d p %.17g th %.17g", level, p, th);
	int K = defaults ? freezer(b.data(), level) : freezer(b.data(), level, p, th);
	Vec m = mant(th, e);
	Ev("Threshold").a("th", m).i("tx", e).a("frozen", unpack(b, N)).i("K", K).b("intact", b.intact()).end();
}
static void choose(double p, int K, int level, uint32_t fill, bool defaults = false)
{
	int N = 1 << level;
	Guarded<uint32_t> b((N + 31) / 32, fill);
	doing("PolarCodeConst0 level %d p %.17g K %d", level, p, K);
	if (defaults) (*best)(b.data(), level, K); else (*best)(b.data(), level, K, p);
	Ev("Best").a("frozen", unpack(b, N)).i("K", K).b("intact", b.intact()).end();
}
static void order(double p, int level, bool defaults = false)
{
	int N = 1 << level;
	Guarded<int> s(N, -7);
	doing("PolarSeqConst0 level %d p %.17g", level, p);
	if (defaults) (*sequ)(s.data(), level); else (*sequ)(s.data(), level, p);
	Ev("Sequence").p("seq", s.data(), N).b("intact", s.intact()).end();
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng rng(25);
	static const double P[] = { 0, 1, .5, .25, .75, .125, .875, 1. / 3, .1, .9, .01, .99, 1e-6, .999999, 0x1.fp-1, 0x1p-20 };
	for (int level = 0; level <= (vt_thorough ? 14 : 12); ++level) {
		int N = 1 << level;
		int rounds = level < 4 ? 40 : level < 7 ? 24 : level < 9 ? 12 : level < 11 ? 4 : 1;
		for (int r = 0; r < rounds * (vt_thorough ? 6 : 1); ++r) {
			double p = r < 16 && level < 9 ? P[r] : rng.one_in(3) ? (rng.u64() % 1000) / 1000. : rng.one_in(3) ? P[rng.in(0, 15)] : (rng.u64() >> 11) * 0x1p-53;
			bool def = r == 17 || (level > 8 && r == 1);
			begin(def ? 0.5 : p, level, 16 << level);
			if (def) threshold(.5, .5, level, 0, true);
			for (int k = 0; k < 3; ++k) {
				double th = k == 0 ? .5 : k == 1 ? (rng.u64() % 4097) / 4096. : std::pow(2., -rng.in(0, 60));
				/* now and then exactly the value of some position */
				if (rng.one_in(2)) {
					th = def ? .5 : p;
					int i = rng.u64();
					for (int j = 0; j < level && j < 4; ++j, i /= 2) th = i & 1 ? th * th : th * (2 - th);
				}
				threshold(def ? .5 : p, th, level, k == 0 ? 0 : k == 1 ? -1 : uint32_t(rng.u64()));
			}
			if (def) { begin(std::exp(-1.), level, 16 << level); p = std::exp(-1.); }
			for (int k = 0; k < 3; ++k)
				choose(p, k == 0 ? rng.in(0, N) : k == 1 ? (rng.one_in(2) ? N : 0) : rng.in(N / 4, N / 2), level, k == 0 ? 0 : k == 1 ? -1 : uint32_t(rng.u64()), def);
			order(p, level, def);
			/* the same objects with another size in between */
			if (level > 3 && rng.one_in(2)) {
				begin(.3, 3, 100);
				order(.3, 3);
				choose(.3, 4, 3, 7);
			}
		}
	}
	/* sizes beyond 16 bit indices */
	for (int level : { 16, 17 }) {
		if (vt_flavour != "avx2" && !vt_thorough) continue;
		double p = level == 16 ? .5 : .1;
		begin(p, level, 16 << level);
		threshold(p, .4, level, 0x5a5a5a5a);
		choose(p, (1 << level) / 2 - 11, level, 0x5a5a5a5a);
		order(p, level);
	}
	return vt_done();
}
