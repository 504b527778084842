#include "trace.hh"
#include "simd.hh"
#include "rotate.hh"
using namespace CODE;
static Rng *rng;
template <typename T, int SIZE, int W>
static void width()
{
	typedef SIMD<T, SIZE> S;
	static Rotate<S, W> &rot = *opaque(new Rotate<S, W>);
	Ev("Begin").i("size", SIZE).i("w", W).end();
	for (int s = 1 - W; s < W; ++s) {
		S a;
		std::vector<int> in(SIZE), out(W);
		int kind = rng->in(0, 2);
		for (int i = 0; i < SIZE; ++i) { int v = kind ? int(rng->in(-128, 127)) : i - 5; if (std::is_unsigned<T>::value) v &= 127; a.v[i] = v; in[i] = int(a.v[i]); }
		doing("Rotate<%d,%d> by %d", SIZE, W, s);
		S b = rot(a, s);
		for (int i = 0; i < W; ++i) out[i] = int(b.v[i]);
		Ev("Rot").i("s", s).a("in", in).a("out", out).end();
	}
}
template <typename T, int SIZE, int W>
struct All { static void go() { width<T, SIZE, W>(); All<T, SIZE, W - 1>::go(); } };
template <typename T, int SIZE>
struct All<T, SIZE, 0> { static void go() {} };
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng r(11);
	rng = &r;
	All<int8_t, 16, 16>::go();
	All<int8_t, 32, 32>::go();
	All<int8_t, 8, 8>::go();
	All<int8_t, 1, 1>::go();
	All<uint8_t, 16, 5>::go();
	All<int16_t, 8, 8>::go();
	All<int16_t, 16, 16>::go();
	All<int, 4, 4>::go();
	All<float, 8, 8>::go();
	width<int8_t, 64, 64>(); width<int8_t, 64, 45>(); width<int8_t, 64, 31>(); width<double, 4, 3>();
	return vt_done();
}
