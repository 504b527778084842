#include "trace.hh"
#include "exclusive_reduce.hh"
using namespace CODE;
template <typename T, typename OP>
static void one(const char *name, const std::vector<int> &in, OP op)
{
	int n = in.size();
	Guarded<T> a(n, T(0x55)), b(n, T(0x55));
	for (int i = 0; i < n; ++i) a[i] = in[i];
	Guarded<T> c(a);
	doing("exclusive_reduce %s n=%d", name, n);
	exclusive_reduce(a.data(), b.data(), n, op);
	Ev("Reduce").str("op", name).a("in", in).p("out", b.data(), n).b("intact", b.intact() && a.v == c.v).end();
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng rng(10);
	for (int n = 2; n <= (vt_thorough ? 120 : 40); ++n) {
		Ev("Begin").i("n", n).end();
		std::vector<int> v(n);
		for (int i = 0; i < n; ++i) v[i] = n <= 30 ? 1 << i : i * i + 1;
		auto add = [](int a, int b) { return a + b; };
		one<int>("add", v, add);
		for (int k = 0; k < 4; ++k) {
			for (int i = 0; i < n; ++i) v[i] = rng.one_in(4) ? 0 : rng.in(0, 1000);
			one<int>("xor", v, [](int a, int b) { return a ^ b; });
			one<int>("or", v, [](int a, int b) { return a | b; });
			for (int i = 0; i < n; ++i) v[i] = rng.in(-1000, 1000);
			one<int>("min", v, [](int a, int b) { return std::min(a, b); });
			one<short>("max", v, [](short a, short b) { return std::max(a, b); });
			for (int i = 0; i < n; ++i) v[i] = rng.one_in(10) ? 0 : rng.in(1, 250);
			one<int>("mulmod", v, [](int a, int b) { return a * b % 251; });
			one<uint8_t>("min", v, [](uint8_t a, uint8_t b) { return std::min(a, b); });
		}
	}
	/* long arrays */
	for (int n : { 64, 127, 128, 129, 255, 256, 257, 300, 600, vt_thorough ? 4000 : 1000 }) {
		Ev("Begin").i("n", n).i("w", n).end();
		std::vector<int> v(n);
		for (int i = 0; i < n; ++i) v[i] = rng.in(0, 2000000000 / n);
		one<int>("add", v, [](int a, int b) { return a + b; });
		for (int i = 0; i < n; ++i) v[i] = rng.in(-30000, 30000);
		v[rng.in(0, n - 1)] = 31000;
		one<short>("max", v, [](short a, short b) { return std::max(a, b); });
		one<double>("min", v, [](double a, double b) { return std::min(a, b); });
	}
	for (int n : { 2000, 32768, 70000 }) {
		Ev("Begin").i("n", n).i("w", 200).end();
		std::vector<int> v(n);
		for (int i = 0; i < n; ++i) v[i] = rng.in(0, 2000000000);
		one<int>("xor", v, [](int a, int b) { return a ^ b; });
	}
	return vt_done();
}
