/* args: hard | list */
#include "trace.hh"
#include "osd.hh"
using namespace CODE;
typedef std::vector<int> Vec;
typedef std::vector<Vec> Mat;
static std::string mode;
static bool list() { return mode == "list"; }
static void mat(Ev &e, const char *key, const Mat &m)
{
	e.s += std::string(",\"") + key + "\":[";
	for (size_t i = 0; i < m.size(); ++i) {
		e.s += i ? ",[" : "[";
		for (size_t j = 0; j < m[i].size(); ++j) e.s += (j ? "," : "") + std::to_string(m[i][j]);
		e.s += "]";
	}
	e.s += "]";
}
template <int N> static Vec bits(const uint8_t *p)
{
	Vec v(N);
	for (int i = 0; i < N; ++i) v[i] = (p[i / 8] >> (7 - i % 8)) & 1;
	return v;
}
static int rankof(Mat m)
{
	int r = 0;
	for (size_t c = 0; c < m[0].size() && r < int(m.size()); ++c) {
		size_t p = r;
		while (p < m.size() && !m[p][c]) ++p;
		if (p == m.size()) continue;
		std::swap(m[p], m[r]);
		for (size_t j = 0; j < m.size(); ++j)
			if (int(j) != r && m[j][c])
				for (size_t k = 0; k < m[0].size(); ++k) m[j][k] ^= m[r][k];
		++r;
	}
	return r;
}
static long binom(int n, int k) { long r = 1; for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1); return r; }
static long candidates(int K, int O) { long s = 0; for (int i = 0; i <= O && i <= K; ++i) s += binom(K, i); return s; }
template <int N, int K>
struct Code
{
	Guarded<int8_t> gm;
	Mat rows;
	int weight = 1;
	std::function<void()> head;
	Code() : gm(N * K, 33) {}
	void load(const Mat &m)
	{
		rows = m;
		for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) gm[N * j + i] = m[j][i];
	}
	Mat get() { Mat m(K, Vec(N)); for (int j = 0; j < K; ++j) for (int i = 0; i < N; ++i) m[j][i] = gm[N * j + i]; return m; }
	void given() { Ev e("Given"); mat(e, "G", rows); e.end(); }
	void linear(Rng &rng, int count)
	{
		static LinearEncoder<N, K> &enc = *opaque(new LinearEncoder<N, K>);
		for (int t = 0; t < count; ++t) {
			Guarded<uint8_t> msg((K + 7) / 8, 0xa5), code((N + 7) / 8, t & 1 ? 0xff : 0);
			for (int i = 0; i < (K + 7) / 8; ++i) msg[i] = t == 0 ? 0 : t == 1 ? 255 : rng.u64();
			Vec before = bits<K>(msg.data());
			doing("linear encoder %d %d", N, K);
			enc(code.data(), msg.data(), gm.data());
			Ev("Linear").a("msg", before).a("code", bits<N>(code.data())).b("intact", msg.intact() && code.intact() && bits<K>(msg.data()) == before && get() == rows).end();
		}
	}
};
template <int N, int K, int O, int L>
struct Dec
{
	static OrderedStatisticsDecoder<N, K, O> &osd;
	static OrderedStatisticsListDecoder<N, K, O, L> &osld;
	/* returns cost */
	static void run(Code<N, K> &c, const Vec &v)
	{
		Guarded<int8_t> soft(N, 44);
		for (int i = 0; i < N; ++i) soft[i] = v[i];
		auto same = [&]() { for (int i = 0; i < N; ++i) if (soft[i] != v[i]) return false; return soft.intact() && c.gm.intact() && c.get() == c.rows; };
		const int B = (N + 7) / 8;
		if (!list()) {
			Guarded<uint8_t> hard(B, 0x5a);
			doing("OSD<%d,%d,%d>", N, K, O);
			bool r = osd(hard.data(), soft.data(), c.gm.data());
			Ev("OSD").i("O", O).a("soft", v).a("hard", bits<N>(hard.data())).b("ret", r).b("intact", hard.intact() && same()).end();
		} else {
			Guarded<uint8_t> hard(B * L, 0x5a);
			Guarded<int> rank(L, 0x77777);
			doing("OSLD<%d,%d,%d,%d>", N, K, O, L);
			osld(rank.data(), hard.data(), soft.data(), c.gm.data());
			Ev e("OSLD");
			e.i("O", O).a("soft", v).p("rank", rank.data(), L);
			Mat m;
			for (int j = 0; j < L; ++j) m.push_back(bits<N>(hard.data() + B * j));
			mat(e, "hard", m);
			e.b("intact", hard.intact() && rank.intact() && same()).end();
		}
	}
};
template <int N, int K, int O, int L> OrderedStatisticsDecoder<N, K, O> &Dec<N, K, O, L>::osd = *opaque(new OrderedStatisticsDecoder<N, K, O>);
template <int N, int K, int O, int L> OrderedStatisticsListDecoder<N, K, O, L> &Dec<N, K, O, L>::osld = *opaque(new OrderedStatisticsListDecoder<N, K, O, L>);
static Vec wordof(const Mat &g, Rng &rng)
{
	Vec w(g[0].size(), 0);
	for (auto &r : g) if (rng.one_in(2)) for (size_t i = 0; i < w.size(); ++i) w[i] ^= r[i];
	return w;
}
/* distinct: no two equally reliable positions */
static Vec softfor(const Mat &g, Rng &rng, int kind, bool distinct)
{
	int n = g[0].size();
	Vec w = wordof(g, rng), v(n);
	Vec mag(n);
	if (distinct) {
		Vec all;
		int hi = std::min(127, std::max(n + 1, int(rng.in(n, 140))));
		for (int i = 0; i <= hi; ++i) all.push_back(i);
		for (int i = 0; i < n; ++i) { int j = rng.in(i, hi); std::swap(all[i], all[j]); mag[i] = all[i]; }
	} else {
		int hi = rng.one_in(2) ? rng.in(1, 4) : 127;
		for (int &x : mag) x = rng.in(0, hi);
	}
	for (int i = 0; i < n; ++i) {
		int s = 1 - 2 * w[i];
		switch (kind % 6) {
		case 0: s = rng.one_in(2) ? 1 : -1; break; /* no codeword near */
		case 1: break; /* on a codeword */
		case 2: if (rng.one_in(8)) s = -s; break;
		case 3: if (mag[i] < 16 && rng.one_in(2)) s = -s; break; /* errors at unreliable positions */
		case 4: if (mag[i] < 40 && rng.one_in(2)) s = -s; break;
		case 5: if (rng.one_in(3)) s = -s; break;
		}
		v[i] = s * mag[i];
		if (v[i] == -127 && rng.one_in(2)) v[i] = -128;
	}
	return v;
}
/* the most reliable positions agree with the hard decisions of a codeword that */
/* disagrees nearly everywhere else: negative correlations                      */
static Vec against(const Mat &g, Rng &rng, int O)
{
	int n = g[0].size(), k = g.size();
	Vec perm(n), v(n), w = wordof(g, rng);
	for (int i = 0; i < n; ++i) perm[i] = i;
	for (int i = n - 1; i > 0; --i) std::swap(perm[i], perm[rng.in(0, i)]);
	int big = rng.in(1, 3);
	for (int i = 0; i < n; ++i) {
		int p = perm[i];
		v[p] = i < k ? (1 - 2 * w[p]) * (big + rng.in(0, 1)) : -(1 - 2 * w[p]) * rng.in(0, big);
	}
	return v;
}
template <int N, int K, int O, int L>
static void tests(Code<N, K> &c, Rng &rng, int effort, bool exhaustive)
{
	static_assert(L >= 1, "L");
	const bool small = N <= 15;
	const int W = 1 + (candidates(K, O) * N + K * K * N) / 50;
	Ev("Begin").i("w", W).end();
	c.given();
	int cost = 0;
	auto go = [&](const Vec &v) {
		Dec<N, K, O, L>::run(c, v);
		if ((cost += W) > 800) { cost = 0; Ev("Begin").i("w", 1000).end(); c.given(); }
	};
	if (exhaustive) {
		static const int A[] = { -1, 0, 1, 2, -2, -128, 127 };
		int na = N <= 3 ? 7 : N <= 4 ? 5 : 3;
		Vec idx(N, 0);
		while (true) {
			Vec v;
			for (int i : idx) v.push_back(A[i]);
			go(v);
			int p = 0;
			while (p < N && ++idx[p] == na) idx[p++] = 0;
			if (p == N) break;
		}
	}
	for (int t = 0; t < effort * (vt_thorough ? 20 : 2); ++t) {
		if (small && t % 4 == 3) go(against(c.rows, rng, O));
		else go(softfor(c.rows, rng, t, !small || t % 8 == 0));
	}
}
template <int N, int K, int O, int L>
static void randoms(int matrices, int effort, bool exhaustive = false)
{
	Rng rng(N * 1000 + K * 10 + O);
	for (int m = 0; m < matrices * (vt_thorough ? 3 : 1); ++m) {
		static Code<N, K> c;
		Mat g;
		do {
			g = Mat(K, Vec(N));
			int dens = rng.in(1, 4);
			for (auto &r : g) for (int &x : r) x = rng.one_in(dens + 1);
		} while (rankof(g) < K);
		c.load(g);
		Ev("Begin").end();
		c.given();
		if (!list()) c.linear(rng, 4);
		tests<N, K, O, L>(c, rng, effort, exhaustive && m == 0);
	}
}
template <int N, int K, int O, int L>
static void bch(std::initializer_list<int> minpols, int effort, bool exhaustive = false)
{
	Rng rng(N * 1000 + K * 10 + O + 7);
	for (int sys = 0; sys < 2; ++sys) {
		static Code<N, K> c;
		Ev("Begin").end();
		if (!list()) {
			Guarded<int8_t> poly(N - K + 1, 11);
			doing("poly %d %d", N, K);
			BoseChaudhuriHocquenghemGenerator<N, K>::poly(poly.data(), minpols);
			Ev("Poly").a("minpols", minpols).p("poly", poly.data(), N - K + 1).b("intact", poly.intact()).end();
		}
		for (int i = 0; i < N * K; ++i) c.gm[i] = 55;
		doing("matrix %d %d", N, K);
		BoseChaudhuriHocquenghemGenerator<N, K>::matrix(c.gm.data(), sys, minpols);
		c.rows = c.get();
		Ev e("Matrix");
		e.i("N", N).i("K", K).b("sys", sys).a("minpols", minpols);
		mat(e, "G", c.rows);
		e.b("intact", c.gm.intact()).end();
		if (!list()) c.linear(rng, N > 100 ? 4 : 12);
		for (auto &r : c.rows) for (int x : r) if (x != 0 && x != 1) return; /* rejected anyway */
		tests<N, K, O, L>(c, rng, effort, exhaustive);
	}
}
/* long codes and strong values: the correlations need more than 16 bits */
template <int N, int K, int O, int L>
static void longs(int matrices, int effort)
{
	Rng rng(N * 1000 + K * 10 + O + 3);
	for (int m = 0; m < matrices * (vt_thorough ? 3 : 1); ++m) {
		static Code<N, K> c;
		Mat g;
		do {
			g = Mat(K, Vec(N));
			for (auto &r : g) for (int &x : r) x = rng.in(0, 1);
		} while (rankof(g) < K);
		c.load(g);
		const int W = 1 + (candidates(K, O) * N + K * K * N) / 50;
		for (int t = 0; t < effort * (vt_thorough ? 8 : 1); ++t) {
			Ev("Begin").i("w", W).end();
			c.given();
			if (!list() && t == 0) c.linear(rng, 3);
			/* the K most reliable positions are distinct and independent */
			Vec pos;
			Mat sub(K, Vec(K));
			do {
				pos.clear();
				while (int(pos.size()) < K) {
					int p = rng.in(0, N - 1);
					if (std::find(pos.begin(), pos.end(), p) == pos.end()) pos.push_back(p);
				}
				for (int j = 0; j < K; ++j) for (int i = 0; i < K; ++i) sub[j][i] = g[j][pos[i]];
			} while (rankof(sub) < K);
			Vec w = wordof(g, rng), v(N);
			int top = 127 - K, errs = rng.in(2, 20);
			for (int i = 0; i < N; ++i)
				v[i] = (1 - 2 * w[i]) * (t % 2 ? top - rng.in(0, 3) : rng.in(0, top)) * (rng.one_in(errs) ? -1 : 1);
			if (t % 4 == 3) for (int &x : v) x = -x; /* against the codeword */
			for (int i = 0; i < K; ++i) v[pos[i]] = (w[pos[i]] ? -1 : 1) * (127 - i) * (rng.one_in(4) ? -1 : 1);
			Dec<N, K, O, L>::run(c, v);
		}
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	mode = argc > 2 ? argv[2] : "hard";
	randoms<1, 1, 1, 2>(1, 8);
	randoms<3, 1, 0, 1>(3, 10, true);
	randoms<3, 1, 1, 2>(3, 10, true);
	randoms<3, 2, 2, 4>(3, 10, true);
	randoms<4, 2, 1, 3>(3, 20, true);
	randoms<4, 4, 3, 15>(2, 20);
	randoms<5, 2, 1, 2>(3, 20, true);
	randoms<6, 3, 2, 7>(4, 20, true);
	randoms<7, 2, 1, 1>(4, 30);
	randoms<8, 4, 0, 1>(3, 20);
	randoms<8, 4, 2, 5>(4, 40);
	randoms<8, 6, 4, 16>(2, 10);
	randoms<9, 5, 5, 32>(2, 12);
	randoms<9, 7, 6, 20>(2, 6);
	randoms<10, 8, 6, 3>(2, 4);
	randoms<12, 3, 1, 4>(4, 30);
	randoms<15, 2, 2, 4>(3, 30);
	randoms<17, 8, 2, 8>(4, 20);
	randoms<24, 12, 3, 16>(1, 8);
	bch<7, 4, 1, 4>({ 0b1011 }, 40, vt_thorough);
	bch<15, 5, 1, 6>({ 0b10011, 0b11111, 0b00111 }, 60);
	bch<15, 7, 2, 4>({ 0b10011, 0b11111 }, 30);
	bch<31, 16, 2, 4>({ 0b100101, 0b111101, 0b110111 }, 16);
	bch<31, 21, 1, 8>({ 0b100101, 0b111101 }, 16);
	bch<127, 64, 1, 4>({ 0b10001001, 0b10001111, 0b10011101, 0b11110111, 0b10111111, 0b11010101, 0b10000011, 0b11101111, 0b11001011 }, 2);
	longs<270, 5, 2, 6>(1, 8);
	longs<400, 6, 1, 5>(1, 6);
	longs<1000, 3, 2, 7>(1, 6);
	return vt_done();
}
