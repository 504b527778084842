#include "trace.hh"
#include "xorshift.hh"
using namespace CODE;
static const uint64_t X32[] = { 123456789, 362436069, 521288629, 88675123, 5783321, 6615241 };
// every state word at a boundary value, reset at once or after a draw to seeds of every number of words
template <typename G, int WORDS, int BITS, typename MK, typename RS>
static void corners(const char *kind, MK make, RS reset)
{
	Rng rng(WORDS * 1000 + BITS);
	uint64_t all = BITS == 64 ? ~0ull : 0xffffffffull;
	const uint64_t edge[] = { 0, 1, all, 1ull << (BITS-1) };
	for (int w = 0; w < WORDS; ++w) for (uint64_t e: edge) {
		Ev("Begin").str("kind", kind).end();
		std::vector<uint64_t> s;
		for (int i = 0; i < WORDS; ++i) s.push_back(i == w ? e : rng.u64() & all);
		doing("%s seeds", kind);
		G g = make(s);
		Ev("Seed").ws("s", s, BITS).end();
		for (int n = 0; n <= WORDS; ++n) for (int draws = 0; draws < 2; ++draws) for (int last = 0; last < 2; ++last) {
			for (int i = 0; i < draws; ++i) Ev("Draw").w("r", g(), BITS).end();
			std::vector<uint64_t> r;
			for (int i = 0; i < n; ++i) r.push_back(rng.u64() & all);
			if (n && last) r[n-1] = e;
			reset(g, r);
			Ev("Seed").ws("s", r, BITS).end();
			for (int i = 0; i < 2 + !draws; ++i) Ev("Draw").w("r", g(), BITS).end();
			reset(g, s);
			Ev("Seed").ws("s", s, BITS).end();
		}
	}
}
template <typename G, int WORDS, int BITS, typename MK, typename RS>
static void run(const char *kind, MK make, RS reset, int sessions)
{
	Rng rng(WORDS * 100 + BITS);
	for (int k = 0; k < sessions; ++k) {
		Ev("Begin").str("kind", kind).end();
		auto words = [&](int n) {
			std::vector<uint64_t> s;
			for (int i = 0; i < n; ++i) {
				uint64_t v = rng.one_in(4) ? (rng.one_in(2) ? ~0ull : rng.one_in(2) ? 1 : 0) : rng.u64();
				s.push_back(BITS == 64 ? v : v & 0xffffffff);
			}
			return s;
		};
		int n = k == 0 ? 0 : rng.in(0, WORDS);
		auto s = words(n);
		doing("%s seeds", kind);
		G g = make(s);
		if (n) Ev("Seed").ws("s", s, BITS).end();
		if (k == 0) Ev("Limits").w("lo", G::min(), BITS).w("hi", G::max(), BITS).end();
		for (int i = 0; i < (k == 0 ? 60 : 24); ++i) {
			if (rng.one_in(9)) {
				s = words(rng.one_in(2) ? 0 : rng.in(0, WORDS));
				reset(g, s);
				Ev("Seed").ws("s", s, BITS).end();
			}
			if (rng.one_in(12)) {
				int m = rng.in(2, 40);
				typename G::result_type r = 0;
				for (int j = 0; j < m; ++j) r = g();
				Ev("Skip").i("n", m).w("r", r, BITS).end();
			}
			Ev("Draw").w("r", g(), BITS).end();
		}
	}
	corners<G, WORDS, BITS>(kind, make, reset);
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	int n = vt_thorough ? 400 : 16;
	typedef std::vector<uint64_t> S;
#define A(i) uint32_t(s[i])
	run<Xorshift32, 1, 32>("x32", [](S s) { return s.empty() ? Xorshift32() : Xorshift32(A(0)); }, [](Xorshift32 &g, S s) { if (s.empty()) g.reset(); else g.reset(A(0)); }, n);
	run<Xorshift64, 1, 64>("x64", [](S s) { return s.empty() ? Xorshift64() : Xorshift64(s[0]); }, [](Xorshift64 &g, S s) { if (s.empty()) g.reset(); else g.reset(s[0]); }, n);
	run<Xorwow, 6, 32>("wow", [](S s) {
		switch (s.size()) {
		case 0: return Xorwow(); case 1: return Xorwow(A(0)); case 2: return Xorwow(A(0), A(1)); case 3: return Xorwow(A(0), A(1), A(2));
		case 4: return Xorwow(A(0), A(1), A(2), A(3)); case 5: return Xorwow(A(0), A(1), A(2), A(3), A(4)); default: return Xorwow(A(0), A(1), A(2), A(3), A(4), A(5)); } },
		[](Xorwow &g, S s) {
		switch (s.size()) {
		case 0: g.reset(); break; case 1: g.reset(A(0)); break; case 2: g.reset(A(0), A(1)); break; case 3: g.reset(A(0), A(1), A(2)); break;
		case 4: g.reset(A(0), A(1), A(2), A(3)); break; case 5: g.reset(A(0), A(1), A(2), A(3), A(4)); break; default: g.reset(A(0), A(1), A(2), A(3), A(4), A(5)); } }, n);
	run<Xorshift128, 4, 32>("x128", [](S s) {
		switch (s.size()) {
		case 0: return Xorshift128(); case 1: return Xorshift128(A(0)); case 2: return Xorshift128(A(0), A(1)); case 3: return Xorshift128(A(0), A(1), A(2)); default: return Xorshift128(A(0), A(1), A(2), A(3)); } },
		[](Xorshift128 &g, S s) {
		switch (s.size()) {
		case 0: g.reset(); break; case 1: g.reset(A(0)); break; case 2: g.reset(A(0), A(1)); break; case 3: g.reset(A(0), A(1), A(2)); break; default: g.reset(A(0), A(1), A(2), A(3)); } }, n);
	return vt_done();
}
