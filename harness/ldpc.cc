/* args: enc | dec ; -DPART selects code sizes */
#include "trace.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
using namespace CODE;
typedef std::vector<int> Vec;
static bool dec;
static int once;
#ifdef __AVX2__
static const int D = 30;
#else
static const int D = 15;
#endif
/* the contents are filled in at run time, the dimensions are fixed */
template <int TM, int TQ, int TG, int SUM, int MAXC>
struct Table
{
	static const int M = TM;
	static const int K = TM * TG;
	static const int N = TM * (TG + TQ);
	static const int LINKS_MIN_CN = 3;
	static const int LINKS_MAX_CN = MAXC + 2;
	static const int LINKS_TOTAL = TM * SUM + 2 * TM * TQ - 1;
	static const int DEG_MAX = SUM;
	static int DEG[TG + 1], LEN[TG + 1], POS[SUM];
};
template <int TM, int TQ, int TG, int SUM, int MAXC> int Table<TM, TQ, TG, SUM, MAXC>::DEG[TG + 1];
template <int TM, int TQ, int TG, int SUM, int MAXC> int Table<TM, TQ, TG, SUM, MAXC>::LEN[TG + 1];
template <int TM, int TQ, int TG, int SUM, int MAXC> int Table<TM, TQ, TG, SUM, MAXC>::POS[SUM];
/* conflicts: links of a check row into one group in the same words, at most two at a place */
template <typename T, int q, int G, int SUM, int MAXC>
static bool fill(Rng &rng, int conflicts)
{
	const int W = T::M / D;
	for (int attempt = 0; attempt < 1000000; ++attempt) {
		/* degrees: every group at least one link */
		Vec deg(G, 1), cnt(q, 0);
		for (int s = G; s < SUM; ++s) ++deg[rng.in(0, G - 1)];
		Vec rows;
		for (int i = 0; i < q; ++i) rows.push_back(i);
		while (int(rows.size()) < SUM) rows.push_back(rng.in(0, q - 1));
		for (int i = SUM - 1; i > 0; --i) std::swap(rows[i], rows[rng.in(0, i)]);
		bool ok = true;
		for (int r : rows) ok = ok && ++cnt[r] <= MAXC;
		if (!ok || *std::max_element(cnt.begin(), cnt.end()) != MAXC) continue;
		/* blocks of consecutive groups of the same degree */
		int e = 0, found = 0;
		std::vector<std::vector<std::pair<int, int>>> used(q);
		for (int g = 0; g < G && ok; ++g)
			for (int d = 0; d < deg[g] && ok; ++d, ++e) {
				int i = rows[e], m, same;
				for (int tries = 0; ; ++tries) {
					if (tries == 50) { ok = false; break; }
					m = rng.in(0, T::M - 1);
					same = 0;
					bool dup = false;
					for (auto &u : used[i])
						if (u.first == g) {
							dup = dup || u.second == m;
							if (u.second % W == m % W) ++same; /* same words */
						}
					if (dup) continue;
					if (same > 1) continue;
					if (same && found >= conflicts) continue;
					break;
				}
				found += same;
				used[i].push_back({ g, m });
				T::POS[e] = m * q + i;
			}
		if (!ok || (G < 9 && found != conflicts)) continue;
		int blocks = 0;
		for (int g = 0; g < G; ++g) {
			if (blocks && T::DEG[blocks - 1] == deg[g]) ++T::LEN[blocks - 1];
			else { T::DEG[blocks] = deg[g]; T::LEN[blocks++] = 1; }
		}
		T::DEG[blocks] = T::LEN[blocks] = 0;
		return true;
	}
	return false;
}
template <typename T> static const bool FAR = T::N > 2000;
template <typename T, int q, int G, int SUM, int MAXC>
static void begin(int w)
{
	Ev e("Begin");
	e.i("M", T::M).i("q", q).i("G", G).i("D", D).b("dec", dec).b("far", FAR<T>).i("w", w);
	e.s += ",\"adr\":[";
	int p = 0, g = 0;
	for (int b = 0; T::LEN[b]; ++b)
		for (int n = 0; n < T::LEN[b]; ++n, ++g)
			for (int d = 0; d < T::DEG[b]; ++d, ++p)
				e.s += (p ? ",[" : "[") + std::to_string(g) + "," + std::to_string(T::POS[p]) + "]";
	e.s += "]";
	e.end();
}
template <typename T, int q, int G, int SUM, int MAXC, int BETA>
static void one(Rng &rng, int words)
{
	const int K = T::K, R = T::N - T::K;
	doing("LDPC constructors %d %d", K, R);
	static LDPCEncoder<T> *enc;
	static LDPCDecoder<T, BETA> *dcd;
	delete enc; delete dcd;
	enc = opaque(new LDPCEncoder<T>);
	dcd = opaque(new LDPCDecoder<T, BETA>);
	begin<T, q, G, SUM, MAXC>(dec ? words * SUM * T::M * (T::N <= 120 && !once ? 80 : 4) : words * SUM);
	for (int f = 0, t = FAR<T> && dec ? rng.in(2, 3) : 0; f < words; ++f, ++t) {
		Guarded<int8_t> data(K, 3), par(R, 3);
		Vec msg(K);
		for (int i = 0; i < K; ++i) data[i] = msg[i] = t == 0 ? 1 : t == 1 ? -1 : rng.one_in(2) ? 1 : -1;
		doing("LDPC encode K=%d R=%d", K, R);
		(*enc)(data.data(), par.data());
		bool same = data.intact() && par.intact();
		for (int i = 0; i < K; ++i) same = same && data[i] == msg[i];
		if (!dec) {
			Ev(FAR<T> ? "FarEncode" : "Encode").a("data", msg).p("parity", par.data(), R).b("intact", same).end();
			continue;
		}
		static Vec s;
		Vec again = s; /* the previous word */
		s = Vec(K + R);
		int amp = rng.one_in(3) ? rng.in(1, 127) : rng.in(4, 24), kind = rng.in(0, 8), pct = rng.in(1, 14);
		for (int i = 0; i < K + R; ++i) {
			int x = i < K ? data[i] : par[i - K];
			switch (kind) {
			case 0: x *= rng.in(1, 127); break; /* valid already */
			case 1: x = x * amp; if (rng.in(0, 99) < pct) x = -x; break;
			case 2: x = rng.in(0, 99) < 3 * pct ? 0 : x * amp; break;
			case 3: x = x * amp + rng.in(-amp, amp) + rng.in(-amp, amp) / 2; break;
			case 4: x = rng.in(-128, 127); break;
			case 5: x = x < 0 ? -128 : 127; if (rng.in(0, 99) < pct) x = -1 - x; break;
			case 6: x = x * rng.in(0, 6) + rng.in(-2, 2); break;
			case 7: x = rng.in(0, 99) < 40 ? 0 : x * rng.in(1, 40); break;
			case 8: x = x * amp; break; /* one error below */
			}
			s[i] = std::max(-128, std::min(127, x));
		}
		if (kind == 8) { int b = rng.in(0, K + R - 1); s[b] = rng.one_in(2) ? 0 : -std::min(127, s[b] + (s[b] == -128)); }
		if (t > 2 && rng.one_in(6) && again.size() == s.size()) s = again;
		static const int TR[] = { 0, 1, 2, 3, 5, 8 };
		int trials = FAR<T> ? rng.in(1, 2) : T::N <= 120 && f == words - 1 && !once++ ? (int)rng.in(257, 270) : TR[rng.in(0, 5)];
		if (trials > 200) /* nothing to converge to */
			for (int &x : s) x = rng.in(-9, 9);
		Guarded<int8_t> om(K, 9), op(R, 9);
		for (int i = 0; i < K; ++i) om[i] = s[i];
		for (int i = 0; i < R; ++i) op[i] = s[K + i];
		doing("LDPC decode K=%d R=%d", K, R);
		int r = (*dcd)(om.data(), op.data(), trials);
		Vec o(K + R);
		for (int i = 0; i < K; ++i) o[i] = om[i];
		for (int i = 0; i < R; ++i) o[K + i] = op[i];
		Ev(FAR<T> ? "FarDecode" : "Decode").i("beta", BETA).i("trials", trials).a("soft", s).a("out", o).i("ret", r).b("intact", om.intact() && op.intact()).end();
	}
}
template <int M, int q, int G, int SUM, int MAXC, int BETA>
static void run(int tables, int words, int maxconf)
{
	typedef Table<M, q, G, SUM, MAXC> T;
	Rng rng(M * 1000 + q * 100 + G * 10 + SUM + MAXC * 7 + BETA * 3 + (dec ? 1 : 0));
	for (int t = 0; t < tables * (vt_thorough ? 8 : 1); ++t) {
		int conf = t % (maxconf + 1);
		if (!fill<T, q, G, SUM, MAXC>(rng, conf)) { fprintf(stderr, "no table M=%d q=%d G=%d\n", M, q, G); exit(3); }
		one<T, q, G, SUM, MAXC, BETA>(rng, words);
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	dec = argc > 2 && !strcmp(argv[2], "dec");
#if PART == 0
	run<30, 2, 2, 4, 2, 0>(4, 10, 1);
	run<30, 2, 3, 5, 3, 1>(6, 10, 1);
	run<30, 3, 3, 7, 3, 1>(6, 10, 2);
	run<30, 4, 4, 13, 4, 2>(4, 8, 1);
#elif PART == 2
	run<360, 20, 160, 300, 21, 1>(1, 2, 0);
	run<360, 90, 90, 300, 8, 0>(1, 2, 0);
#elif PART == 3
	run<360, 5, 130, 140, 32, 0>(1, 2, 0);
	run<360, 14, 6, 40, 6, 1>(2, 3, 0);
#else
	run<60, 2, 3, 5, 3, 1>(3, 8, 1);
	run<60, 3, 3, 9, 4, 0>(3, 6, 1);
	run<90, 2, 3, 6, 3, 1>(2, 5, 0);
	run<360, 2, 2, 5, 3, 1>(1, 3, 0);
	run<30, 5, 9, 26, 6, 1>(3, 5, 2);
	run<60, 1, 28, 29, 29, 1>(14, 4, 1);
#endif
	return vt_done();
}
