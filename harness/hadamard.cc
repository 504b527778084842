#include "trace.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
using namespace CODE;
template <int K> struct Had { static const int N = 1 << (K - 1); HadamardEncoder<K> enc; HadamardDecoder<K> dec; static const char *name() { return "had"; } };
template <int K> struct Sim { static const int N = (1 << K) - 1; SimplexEncoder<K> enc; SimplexDecoder<K> dec; static const char *name() { return "sim"; } };
typedef std::vector<int> Vec;
template <typename C, int K>
static void run(int effort)
{
	const int N = C::N;
	static C &c = *opaque(new C);
	Rng rng(N * 10 + K);
	auto begin = [&]() { Ev("Begin").str("kind", C::name()).i("K", K).i("w", 1 + N * (K > 8 ? 500 : 1 << K) / 64).end(); };
	std::vector<Vec> batch;
	Vec rets;
	bool ok = true;
	auto flush = [&]() {
		if (batch.empty()) return;
		begin();
		Ev e("Decode");
		e.s += ",\"soft\":[";
		for (size_t i = 0; i < batch.size(); ++i) {
			e.s += i ? ",[" : "[";
			for (int j = 0; j < N; ++j) e.s += (j ? "," : "") + std::to_string(batch[i][j]);
			e.s += "]";
		}
		e.s += "]";
		e.a("ret", rets).b("intact", ok).end();
		batch.clear(); rets.clear();
	};
	auto decode = [&](const Vec &v) {
		Guarded<int8_t> soft(N, 99);
		for (int i = 0; i < N; ++i) soft[i] = v[i];
		doing("%s<%d> decode", C::name(), K);
		int r = c.dec(soft.data());
		for (int i = 0; i < N; ++i) ok = ok && soft[i] == v[i];
		ok = ok && soft.intact();
		batch.push_back(v);
		rets.push_back(r);
		if (batch.size() * N * (K > 8 ? 100 : 1 << K) > 20000) flush();
	};
	begin();
	for (int m = 0; m < (1 << K); ++m) {
		if (K > 7 && !rng.one_in(8)) continue;
		if (K > 9 && !rng.one_in(8 << (K - 8))) continue;
		Guarded<int8_t> code(N, 77);
		doing("%s<%d> encode %d", C::name(), K, m);
		c.enc(code.data(), m);
		Ev("Encode").i("msg", m).p("code", code.data(), N).b("intact", code.intact()).end();
	}
	/* all vectors over small alphabets */
	static const int A[] = { -128, -127, -1, 0, 1, 127 };
	static const int B[] = { -1, 0, 1 };
	const int *al = N <= 4 ? A : B, na = N <= 3 ? 6 : N <= 4 ? 5 : N <= 8 ? 3 : 0;
	if (na && (N < 8 || vt_thorough || N == 7)) {
		Vec idx(N, 0);
		while (true) {
			Vec v;
			for (int i : idx) v.push_back(al[i]);
			decode(v);
			int p = 0;
			while (p < N && ++idx[p] == na) idx[p++] = 0;
			if (p == N) break;
		}
	}
	for (int t = 0; t < effort * (vt_thorough ? 20 : 1); ++t) {
		Vec v(N), w(N);
		Guarded<int8_t> code(N);
		int msg = rng.in(0, (1 << K) - 1), other = rng.in(0, (1 << K) - 1);
		c.enc(code.data(), msg);
		for (int i = 0; i < N; ++i) v[i] = code[i];
		c.enc(code.data(), other);
		for (int i = 0; i < N; ++i) w[i] = code[i];
		switch (t % 8) {
		case 0: for (int &x : v) x = rng.in(-128, 127); break;
		case 1: for (int &x : v) x = x * 127 - (x < 0); break; /* extremes */
		case 2: for (int i = 0; i < N; ++i) v[i] = v[i] + w[i]; break; /* exact tie of two codewords */
		case 3: for (int i = 0; i < N; ++i) v[i] = 8 * (v[i] + w[i]) + rng.in(-1, 1); break; /* near tie */
		case 4: for (int &x : v) { x *= rng.in(0, 127); if (rng.one_in(3)) x = -x; } break;
		case 5: for (int &x : v) x = rng.one_in(2) ? -128 : 127; break;
		case 6: for (int i = 0; i < N; ++i) v[i] = 63 * (v[i] + w[i]); v[rng.in(0, N - 1)] += rng.in(-1, 1); break; /* decided by one step */
		case 7: for (int &x : v) x = rng.one_in(4) ? rng.in(-2, 2) : 0; break;
		}
		decode(v);
	}
	flush();
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	run<Had<1>, 1>(60); run<Had<2>, 2>(200); run<Had<3>, 3>(400); run<Had<4>, 4>(400); run<Had<5>, 5>(400); run<Had<6>, 6>(200); run<Had<7>, 7>(60); run<Had<8>, 8>(24); run<Had<9>, 9>(16); run<Had<10>, 10>(16); run<Had<11>, 11>(8); run<Had<13>, 13>(4); run<Had<17>, 17>(2);
	run<Sim<1>, 1>(60); run<Sim<2>, 2>(300); run<Sim<3>, 3>(400); run<Sim<4>, 4>(500); run<Sim<5>, 5>(200); run<Sim<6>, 6>(80); run<Sim<7>, 7>(24); run<Sim<8>, 8>(8); run<Sim<9>, 9>(16); run<Sim<10>, 10>(8); run<Sim<12>, 12>(4); run<Sim<17>, 17>(2);
	return vt_done();
}
