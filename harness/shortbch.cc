#include "trace.hh"
#include <memory>
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
using namespace CODE;
typedef std::vector<int> Vec;
static bool soft_mode;
static long replayed;
template <int N, int K, int G, int T>
struct Code
{
	std::unique_ptr<ShortBCHCodeEncoder<N, K, G>> enc { new ShortBCHCodeEncoder<N, K, G>() };
	std::unique_ptr<ShortBCHCodeDecoder<N, K, G, T>> dec { new ShortBCHCodeDecoder<N, K, G, T>() };
	Rng rng { uint64_t(N) * 1000 + K * 10 + T + G };
	static constexpr int64_t WORDS = int64_t(1) << N;
	void begin(int w = 1) { Ev("Begin").i("N", N).i("K", K).i("G", G).i("T", T).i("w", w).end(); }
	void encodes()
	{
		int step = K <= 12 || vt_thorough ? 1 : 8;
		for (int from = 0; from < (1 << K); from += 512 * step) {
			begin(10);
			Vec r;
			doing("encode<%d,%d> from %d", N, K, from);
			for (int m = from; m < from + 512 && m < (1 << K); ++m) r.push_back((*enc)(m));
			Ev("EncodeRow").i("from", from).a("r", r).end();
		}
		begin(4);
		for (int k = 0; k < 40; ++k) {
			int m = k == 0 ? 0 : k == 1 ? (1 << K) - 1 : rng.in(0, (1 << K) - 1);
			Guarded<int8_t> code(N, 44);
			doing("modulate<%d,%d> %d", N, K, m);
			int r = (*enc)(code.data(), m);
			Ev("Modulate").i("msg", m).p("code", code.data(), N).i("r", r).b("intact", code.intact()).end();
		}
	}
	int hard(int w) { doing("decode<%d,%d,T=%d> word %d", N, K, T, w); return (*dec)(w); }
	void hards(int n)
	{
		if (N <= 15) {
			for (int from = 0; from < WORDS; from += 1024) {
				begin(40);
				Vec r;
				for (int w = from; w < from + 1024 && w < WORDS; ++w) r.push_back(hard(w));
				Ev("HardRow").i("from", from).a("r", r).end();
			}
			return;
		}
		for (int k = 0; k < n; ++k) {
			if (k % 50 == 0) begin(40);
			int w;
			if (k % 3 == 0) w = rng.in(0, WORDS - 1);
			else {
				w = (*enc)(rng.in(0, (1 << K) - 1));
				for (int j = rng.in(0, T + 2); j > 0; --j) w ^= 1 << rng.in(0, N - 1);
			}
			Ev("Hard").i("w", w).i("r", hard(w)).end();
		}
	}
	/* every received word (or a stride of them) against the table of the specification */
	void replay(const Vec &tab)
	{
		size_t p = 0;
		while (p < tab.size()) {
			int n = tab[p], k = tab[p+1];
			if (n == N && k == K && tab[p+2] == G && tab[p+3] == T) break;
			p += 4 + n + (1 << (n - k));
		}
		if (p >= tab.size()) exit(3);
		const int *rem = &tab[p+4], *pat = rem + N;
		int64_t step = N == 23 || vt_thorough ? 1 : 331;
		if (N > 23 && vt_thorough) step = 7;
		int lo[1 << 16], hi[1 << 16];
		for (int w = 0; w < (1 << 16); ++w) {
			lo[w] = hi[w] = 0;
			for (int i = 0; i < 16; ++i) if ((w >> i) & 1) {
				lo[w] ^= i < N ? rem[i] : 0;
				hi[w] ^= i + 16 < N ? rem[i + 16] : 0;
			}
		}
		doing("replay of all words<%d,%d>", N, K);
		for (int64_t w = 0; w < WORDS; w += step) {
			int s = lo[w & 65535] ^ hi[w >> 16], e = pat[s], want = e < 0 ? -1 : int(w) ^ e, got = (*dec)(int(w));
			if (got != want) vt_mismatch("ShortBCH<%d,%d,%#x,T=%d> hard decision of word %d is %d instead of %d", N, K, G, T, int(w), got, want);
			++replayed;
		}
	}
	void softs(int n)
	{
		static const int LIM[] = { 127, 3, 20, 128, 8 };
		for (int k = 0; k < n; ++k) {
			if (k % 20 == 0) begin(20);
			Vec v(N);
			int lim = LIM[rng.in(0, 4)];
			int cw = (*enc)(rng.in(0, (1 << K) - 1)), other = (*enc)(rng.in(0, (1 << K) - 1));
			auto sgn = [&](int i) { return 1 - 2 * ((cw >> i) & 1); };
			int kind = k % 8;
			for (int i = 0; i < N; ++i) {
				int mag = rng.in(0, lim);
				switch (kind) {
				case 0: v[i] = rng.one_in(2) ? mag : -mag; break; /* garbage */
				case 1: v[i] = sgn(i) * mag; if (mag < lim / 3 && rng.one_in(2)) v[i] = -v[i]; break; /* errors where it is weak */
				case 2: v[i] = sgn(i) * (20 + 3 * i % 100); break;
				case 3: v[i] = sgn(i) * (10 + rng.in(0, 100)); break;
				case 4: v[i] = 10 * (sgn(i) + 1 - 2 * ((other >> i) & 1)) + rng.in(-1, 1); break; /* between two codewords */
				case 5: v[i] = rng.one_in(3) ? rng.in(-1, 2) : rng.in(-3, 9); break; /* around zero */
				case 6: v[i] = sgn(i) * rng.in(60, 127); break;
				case 7: v[i] = rng.one_in(2) ? -128 : 127 - rng.in(0, 127); break;
				}
			}
			if (kind == 2 || kind == 3 || kind == 6) {
				/* errors in the weakest places and elsewhere, often at the first and last position */
				Vec idx(N);
				for (int i = 0; i < N; ++i) idx[i] = i;
				for (int i = 0; i < N; ++i) std::swap(idx[i], idx[rng.in(i, N - 1)]);
				if (rng.one_in(2)) std::swap(idx[0], *std::find(idx.begin(), idx.end(), 0));
				if (rng.one_in(3)) std::swap(idx[1], *std::find(idx.begin(), idx.end(), N - 1));
				int weak = rng.in(0, T), strong = rng.in(0, T + 1);
				for (int i = 0; i < weak && i < N; ++i) v[idx[i]] = (v[idx[i]] > 0 ? -1 : 1) * (i + 1 + rng.in(0, 3));
				for (int i = weak; i < weak + strong && i < N; ++i) v[idx[i]] = -v[idx[i]] / 2;
			}
			if (rng.one_in(3) && K > 4) {
				/* clear least reliable places anywhere */
				for (int i = 0; i < N; ++i) if (std::abs(v[i]) < 5) v[i] = v[i] < 0 ? v[i] - 5 : v[i] + 5;
				for (int j = 0; j < T; ++j) v[rng.one_in(3) ? 0 : rng.in(0, N - 1)] = rng.one_in(2) ? j + 1 : -j - 1;
			}
			Guarded<int8_t> soft(N, 55);
			for (int i = 0; i < N; ++i) soft[i] = v[i] = std::max(-128, std::min(127, v[i]));
			doing("soft decode<%d,%d,T=%d> number %d", N, K, T, k);
			int r = (*dec)(soft.data());
			bool ok = soft.intact() && std::equal(v.begin(), v.end(), soft.data());
			Ev("Soft").a("soft", v).i("r", r).b("intact", ok).end();
		}
	}
	/* short codes: all vectors over a few magnitudes */
	void all(const Vec &al)
	{
		Vec idx(N, 0);
		int k = 0;
		while (true) {
			if (k++ % 100 == 0) begin(20);
			Guarded<int8_t> soft(N, 55);
			Vec v;
			for (int i = 0; i < N; ++i) { soft[i] = al[idx[i]]; v.push_back(al[idx[i]]); }
			int r = (*dec)(soft.data());
			Ev("Soft").a("soft", v).i("r", r).b("intact", soft.intact()).end();
			int p = 0;
			while (p < N && ++idx[p] == int(al.size())) idx[p++] = 0;
			if (p == N) break;
		}
	}
};
template <int N, int K, int G, int T>
static void run(const Vec *tab, int hards, int softs)
{
	Code<N, K, G, T> c;
	int x = vt_thorough ? 12 : 1;
	if (soft_mode) c.softs(softs * x);
	else {
		if (tab) c.replay(*tab);
		c.encodes();
		c.hards(hards * x);
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	soft_mode = argc > 2 && !strcmp(argv[2], "soft");
	Vec tab;
	if (!soft_mode) {
		const char *fn = getenv("GEN_shortbch");
		FILE *f = fn ? fopen(fn, "r") : nullptr;
		if (!f) exit(3);
		int c, v = 0, sign = 1;
		bool in = false;
		while ((c = fgetc(f)) != EOF) {
			if (c == '-') sign = -1;
			else if (c >= '0' && c <= '9') { v = v * 10 + c - '0'; in = true; }
			else { if (in) tab.push_back(sign * v); in = false; v = 0; sign = 1; }
		}
		if (in) tab.push_back(sign * v);
		fclose(f);
	}
	run<23, 12, 0b101011100011, 3>(&tab, 200, 300);
	run<23, 12, 0b110001110101, 3>(&tab, 100, 100);
	run<31, 16, 0b1000111110101111, 3>(&tab, 300, 160);
	run<15, 5, 0b10100110111, 3>(nullptr, 0, 300);
	run<15, 5, 0b10100110111, 2>(nullptr, 0, 100);
	run<15, 7, 0b111010001, 2>(nullptr, 0, 300);
	run<15, 11, 0b10011, 1>(nullptr, 0, 200);
	run<31, 21, 0b11101101001, 2>(nullptr, 300, 200);
	run<7, 4, 0b1011, 1>(nullptr, 0, 300);
	run<7, 3, 0b11101, 1>(nullptr, 0, 300);
	run<15, 4, 0b100110101111, 3>(nullptr, 0, 400);
	run<5, 1, 0b11111, 2>(nullptr, 0, 100);
	run<3, 1, 0b111, 1>(nullptr, 0, 100);
	if (soft_mode) {
		Code<3, 1, 0b111, 1>().all({-128, -2, -1, 0, 1, 2, 127});
		Code<7, 4, 0b1011, 1>().all({-1, 0, 2});
		Code<5, 1, 0b11111, 2>().all({-2, -1, 0, 1});
	}
	printf("REPLAYED %ld\n", replayed);
	return vt_done();
}
