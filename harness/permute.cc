#include "trace.hh"
#include "permute.hh"
#include "interleave.hh"
using namespace CODE;
static Rng *rng;
template <int N, typename T, typename F>
static std::vector<T> inplace(const char *name, const std::vector<T> &in, F &f)
{
	Guarded<T> g(N);
	for (int i = 0; i < N; ++i) g[i] = in[i];
	doing("%s of %d", name, N);
	f(g.data());
	std::vector<T> out(g.data(), g.data() + N);
	Ev(name).a("in", in).a("out", out).b("intact", g.intact()).end();
	return out;
}
template <typename T>
static std::vector<T> content(int n, int k)
{
	std::vector<T> v(n);
	for (int i = 0; i < n; ++i) v[i] = k == 0 ? T(i) : k == 1 ? T(rng->in(0, 3)) : T(rng->in(0, 100));
	return v;
}
template <int N>
static void shuffles()
{
	Ev("Begin").i("n", N).b("shuffle", true).end();
	FisherYatesShuffle<N> s;
	static ReverseFisherYatesShuffle<N> &r = *opaque(new ReverseFisherYatesShuffle<N>);
	for (int k = 0; k < 4; ++k) {
		auto v = content<int>(N, k);
		auto a = inplace<N>("Shuffle", v, s);
		auto b = inplace<N>("Unshuffle", a, r);
		inplace<N>("Unshuffle", v, r);
		auto w = content<int8_t>(N, k);
		auto c = inplace<N>("Shuffle", w, s);
		inplace<N>("Unshuffle", c, r);
	}
}
/* large arrays: some elements are followed */
template <int N, typename T>
static void far()
{
	Ev("Begin").i("n", N).b("shuffle", false).i("w", 1 + N / 4).end();
	auto &s = *opaque(new FisherYatesShuffle<N>);
	auto &r = *opaque(new ReverseFisherYatesShuffle<N>);
	Guarded<T> g(N), h(N);
	for (int i = 0; i < N; ++i) g[i] = h[i] = i;
	doing("shuffle %d", N);
	s(g.data());
	std::vector<int> at(N), from { 0, 1, N - 2, N - 1 }, to, back;
	bool good = true;
	for (int i = 0; i < N; ++i) if (g[i] >= 0 && g[i] < N) at[int(g[i])] = i; else good = false;
	while (from.size() < 12) from.push_back(rng->in(0, N - 1));
	for (int f : from) to.push_back(at[f]);
	doing("reverse shuffle %d", N);
	r(h.data());
	for (int i = 0; i < N; ++i) if (h[i] >= 0 && h[i] < N) at[int(h[i])] = i; else good = false;
	for (int t : to) back.push_back(at[t]);
	r(g.data());
	for (int i = 0; i < N; ++i) good = good && g[i] == T(i);
	s(h.data());
	for (int i = 0; i < N; ++i) good = good && h[i] == T(i);
	Ev("Far").a("from", from).a("to", to).a("back", back).b("restored", good).b("intact", g.intact() && h.intact()).end();
}
template <int N>
static void reversal()
{
	Ev("Begin").i("n", N).b("shuffle", false).i("w", 1 + N / 100).end();
	auto f = [](auto *p) { BitReversalPermute<N>(p); };
	for (int k = 0; k < (N > 5000 ? 1 : 3); ++k) {
		auto a = inplace<N>("BitRev", content<int>(N, k), f);
		inplace<N>("BitRev", a, f);
		inplace<N>("BitRev", content<int16_t>(N, k), f);
	}
}
template <int N, int O>
static void inter()
{
	Ev("Begin").i("n", N).b("shuffle", false).i("w", 1 + N / 100).end();
	for (int k = 0; k < (N > 5000 ? 1 : 2); ++k) {
		auto v = content<int>(N, k);
		Guarded<int> in(N), out(N), back(N);
		for (int i = 0; i < N; ++i) in[i] = v[i];
		doing("interleave %d %d", N, O);
		Interleave<N, O>(out.data(), in.data());
		Ev("Inter").i("order", O).p("in", in.data(), N).p("out", out.data(), N).b("intact", in.intact() && out.intact() && std::equal(v.begin(), v.end(), in.data())).end();
		Deinterleave<N, O>(back.data(), out.data());
		Ev("Deinter").i("order", O).p("in", out.data(), N).p("out", back.data(), N).b("intact", back.intact() && out.intact()).end();
		Deinterleave<N, O>(back.data(), in.data());
		Ev("Deinter").i("order", O).p("in", in.data(), N).p("out", back.data(), N).b("intact", back.intact()).end();
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng r(8);
	rng = &r;
	shuffles<1>(); /* nothing to exchange */
	shuffles<2>(); shuffles<3>(); shuffles<4>(); shuffles<5>(); shuffles<7>(); shuffles<16>(); shuffles<17>(); shuffles<64>(); shuffles<100>(); shuffles<255>(); shuffles<256>(); shuffles<600>();
	far<1000, int>(); far<5000, int>(); far<40000, float>(); far<70001, int>();
	if (vt_thorough) { far<32768, int>(); far<65536, int>(); far<65537, int>(); far<140000, double>(); }
	reversal<1>(); reversal<2>(); reversal<4>(); reversal<8>(); reversal<16>(); reversal<32>(); reversal<64>(); reversal<128>(); reversal<256>(); reversal<1024>(); reversal<131072>();
	inter<1, 1>(); inter<2, 1>(); inter<2, 2>(); inter<6, 2>(); inter<6, 3>(); inter<12, 4>(); inter<12, 6>(); inter<12, 12>(); inter<35, 5>(); inter<35, 7>(); inter<64, 8>(); inter<100, 4>(); inter<128, 2>(); inter<128, 32>(); inter<600, 25>(); inter<70000, 7>(); inter<66000, 33000>();
	return vt_done();
}
