#include "trace.hh"
#include "mls.hh"
using namespace CODE;
static void draw(MLS &m, int n)
{
	std::vector<int> b;
	for (int i = 0; i < n; ++i) b.push_back(m());
	Ev("Draw").a("bits", b).end();
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng rng(5);
	/* the period test: every polynomial of small degree, from one and from another start */
	int top = vt_thorough ? 12 : 10;
	for (int deg = 1; deg <= top; ++deg) {
		for (int from = 1 << deg; from < 2 << deg; from += 64) {
			for (int start = 0; start < (deg <= 7 ? 2 : 1); ++start) {
				int r = start ? rng.in(1, (1 << deg) - 1) : 1;
				Ev("Begin").i("poly", 3).i("reg", 1).i("w", 64 << deg).end();
				std::vector<int> v;
				for (int p = from; p < from + 64 && p < 2 << deg; ++p) {
					doing("MLS bad poly=%d r=%d", p, r);
					MLS m(p);
					v.push_back(start ? m.bad(r) : m.bad());
				}
				Ev("BadRow").i("from", from).i("r", r).a("ret", v).end();
			}
		}
	}
	/* sequences with resets and period tests in between */
	int sessions = vt_thorough ? 3000 : 200;
	for (int k = 0; k < sessions; ++k) {
		int deg = rng.in(1, k % 2 ? 30 : 12);
		int p = rng.in(1ll << deg, (2ll << deg) - 1);
		if (rng.one_in(2)) p |= 1;
		int r = rng.one_in(6) ? (1 << deg) - 1 : rng.in(1, (1ll << deg) - 1);
		doing("MLS poly=%d reg=%d", p, r);
		MLS m = k == 0 ? MLS() : rng.one_in(4) ? MLS(p) : MLS(p, r);
		if (k == 0) { p = 0b100000000000000001001; deg = 20; r = 1; m = MLS(); }
		else { m = MLS(p, r); if (rng.one_in(4)) { r = 1; m = MLS(p); } }
		Ev("Begin").i("poly", p).i("reg", r).end();
		for (int i = 0; i < 6; ++i) {
			draw(m, rng.in(1, 60));
			if (rng.one_in(4)) { r = rng.one_in(2) ? 1 : rng.in(1, (1ll << deg) - 1); if (r == 1) m.reset(); else m.reset(r); Ev("Reset").i("r", r).end(); }
			if (deg <= 10 && rng.one_in(3)) {
				r = rng.one_in(2) ? 1 : rng.in(1, (1ll << deg) - 1);
				bool bad = r == 1 ? m.bad() : m.bad(r);
				Ev("Bad").i("r", r).b("ret", bad).end();
				if (bad) { m.reset(r); Ev("Reset").i("r", r).end(); }
			}
		}
	}
	/* a few well known larger ones */
	for (int p : { 0b1100000000000001, 0b10001000000001011, 0b10000000000101101, 0b1000000000001, 0b1000001010011 }) {
		Ev("Begin").i("poly", p).i("reg", 1).i("w", 500000).end();
		MLS m(p);
		bool bad = m.bad();
		Ev("Bad").i("r", 1).b("ret", bad).end();
	}
	if (vt_thorough) {
		for (int p : { 0b100000000000000001001, 0b100000000000000001011, 0b1000000000000000000101 }) {
			Ev("Begin").i("poly", p).i("reg", 1).i("w", 50000000).end();
			MLS m(p);
			bool bad = m.bad();
			Ev("Bad").i("r", 1).b("ret", bad).end();
		}
	}
	return vt_done();
}
