/* Histories of calls on codec objects: the same few inputs in every order. -DPART */
#include "trace.hh"
#include <memory>
#include "galois_field.hh"
#include "prime_field.hh"
#include "bitman.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
#include "cauchy_prime_field_erasure_coding.hh"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
#include "osd.hh"
#include "ldpc_encoder.hh"
#include "ldpc_decoder.hh"
#include "simd.hh"
#include "polar_encoder.hh"
#include "polar_decoder.hh"
#include "polar_list_decoder.hh"
#include "polar_parity_aided.hh"
#include "polar_freezer.hh"
#include "polar_sequence.hh"
using namespace CODE;
typedef std::vector<int> Vec;
static Rng *rng;
static uint32_t fill;
/* what a call showed: a digest of everything it promised to write, and whether its read-only inputs stayed */
struct Out
{
	uint32_t h = 2166136261u;
	long ret = 0;
	bool same = true;
	void b(uint8_t x) { h = (h ^ x) * 16777619u; }
	template <typename T> void p(const T *x, int n) { for (int i = 0; i < n; ++i) { T t = x[i]; for (size_t k = 0; k < sizeof(T); ++k) b(reinterpret_cast<const uint8_t *>(&t)[k]); } }
};
/* a buffer to be written, with something else in it each time */
template <typename T>
struct Junk : Guarded<T>
{
	explicit Junk(int n) : Guarded<T>(n, T(0x33)) { for (int i = 0; i < n; ++i) (*this)[i] = T((fill = fill * 1664525 + 1013904223) >> 25); }
};
/* input which has to stay */
template <typename T>
struct Keep : Guarded<T>
{
	std::vector<T> was;
	explicit Keep(const std::vector<T> &w) : Guarded<T>(w.size(), T(0x44)), was(w) { std::copy(w.begin(), w.end(), this->data()); }
	bool same() { return this->intact() && std::equal(was.begin(), was.end(), this->data()); }
};
/* objects live in memory that held something else */
template <typename O>
struct Place
{
	void *mem = nullptr;
	O *o = nullptr;
	void *raw()
	{
		if (o) o->~O();
		else if (posix_memalign(&mem, 64, sizeof(O))) exit(3);
		memset(mem, (fill = fill * 1664525 + 1013904223) >> 24, sizeof(O));
		return mem;
	}
	~Place() { if (o) o->~O(); free(mem); }
};
template <typename O>
static void history(const char *name, std::function<O *(void *)> make, const std::vector<std::function<Out(O &)>> &in)
{
	const int n = in.size();
	Place<O> place;
	Ev("Begin").str("codec", name).i("n", n).end();
	auto run = [&](const char *kind, const Vec &w) {
		place.o = make(place.raw());
		Vec ret, hash;
		bool same = true;
		for (int k : w) {
			doing("%s input %d", name, k);
			Out r = in[k](*place.o);
			ret.push_back(r.ret);
			hash.push_back(r.h >> 2);
			same = same && r.same;
		}
		Ev(kind).a("in", w).a("ret", ret).a("out", hash).b("same", same).end();
	};
	for (int rep = 0; rep < 2; ++rep)
		for (int a = 0; a < n; ++a) run("Word", { a });
	for (int a = 0; a < n; ++a)
		for (int b = 0; b < n; ++b)
			for (int c = 0; c < n; ++c)
				run("Word", { a, b, c });
	for (int rep = 0; rep < (vt_thorough ? 40 : 4); ++rep) {
		Vec w;
		int len = rng->in(20, vt_thorough ? 300 : 60), streak = rng->in(0, 1);
		for (int i = 0; i < len; ++i) w.push_back(i && streak && rng->in(0, 3) ? w.back() : rng->in(0, n - 1));
		run("Word", w);
		/* two objects taking turns */
		Place<O> other;
		other.o = make(other.raw());
		place.o = make(place.raw());
		Vec ret, hash;
		bool same = true;
		for (int k : w) {
			doing("%s input %d", name, k);
			Out r = in[k](rng->one_in(2) ? *place.o : *other.o);
			ret.push_back(r.ret);
			hash.push_back(r.h >> 2);
			same = same && r.same;
		}
		Ev("Word").a("in", w).a("ret", ret).a("out", hash).b("same", same).end();
	}
	Ev("End").end();
}
template <typename O> static O *def(void *p) { return new(p) O; }
#define FN(O, ...) std::function<Out(O &)>(__VA_ARGS__)
template <typename GF> static void field() { static GF f; }
#if PART == 0
template <int M, int P, typename T, int NR, int FCR>
static void rs(int len)
{
	typedef GaloisField<M, P, T> GF;
	field<GF>();
	typedef ReedSolomonEncoder<NR, FCR, GF> E;
	typedef ReedSolomonDecoder<NR, FCR, GF> D;
	std::vector<std::function<Out(E &)>> enc;
	std::vector<std::function<Out(D &)>> dec;
	E e0;
	auto add_enc = [&](std::vector<T> msg) {
			int n = msg.size();
			enc.push_back(FN(E, [msg, n](E &e) {
				Keep<T> d(msg);
				Junk<T> p(NR);
				e(d.data(), p.data(), n);
				Out r;
				r.p(p.data(), NR);
				r.same = d.same() && p.intact();
				return r;
			}));
	};
	auto add_dec = [&](std::vector<T> word, std::vector<T> era) {
		int n = word.size() - NR;
		dec.push_back(FN(D, [word, era, n](D &d) {
			Guarded<T> a(n), b(NR), e(era.size() + 1);
			for (int i = 0; i < n; ++i) a[i] = word[i];
			for (int i = 0; i < NR; ++i) b[i] = word[n + i];
			for (size_t i = 0; i < era.size(); ++i) e[i] = era[i];
			Out r;
			r.ret = d(a.data(), b.data(), e.data(), era.size(), n);
			r.p(a.data(), n);
			r.p(b.data(), NR);
			r.same = a.intact() && b.intact() && e.intact();
			return r;
		}));
	};
	for (int k = 0; k < 6; ++k) {
		int n = k % 2 ? len : int(GF::N) - NR;
		std::vector<T> msg(n), par(NR);
		for (T &x : msg) x = k == 0 ? 0 : k == 1 ? int(GF::N) : rng->in(0, GF::N);
		e0(msg.data(), par.data(), n);
		if (k < 4)
			add_enc(msg);
		if (k == 3) {
			/* one thing changed at a time */
			msg.pop_back();
			add_enc(msg);
			msg.push_back(0);
			msg[0] ^= 1;
			add_enc(msg);
			msg[0] ^= 1;
			e0(msg.data(), par.data(), n);
		}
		int errs = k == 0 ? 0 : k == 1 ? NR / 2 : k == 2 ? 1 : k == 3 ? NR : k == 4 ? NR : 0, ers = k == 4 ? NR : k == 5 ? NR - 1 : 0;
		std::vector<T> word(msg), era;
		word.insert(word.end(), par.begin(), par.end());
		Vec pos;
		for (int i = 0; i < n + NR; ++i) pos.push_back(i);
		for (int i = 0; i < n + NR; ++i) std::swap(pos[i], pos[rng->in(i, n + NR - 1)]);
		for (int i = 0; i < std::max(errs, ers); ++i) {
			word[pos[i]] ^= k == 5 && i == 0 ? 0 : rng->in(1, GF::N);
			if (i < ers) era.push_back(pos[i]);
		}
		if (k == 5) word[pos[NR]] ^= 1;
		add_dec(word, era);
		if (k == 1) {
			std::vector<T> w(word);
			add_dec(w, { T(n) });
			w.erase(w.begin() + n - 1);
			add_dec(w, {});
			w = word;
			w[n] ^= 3;
			add_dec(w, {});
		}
	}
	history<E>("Reed-Solomon encoder", def<E>, enc);
	history<D>("Reed-Solomon decoder", def<D>, dec);
}
template <int NR, int MSG>
static void bch(std::initializer_list<int> list, int len)
{
	typedef GaloisField<4, 19, uint8_t> GF;
	field<GF>();
	const int NP = 15 - MSG;
	typedef BoseChaudhuriHocquenghemEncoder<15, MSG> E;
	typedef BoseChaudhuriHocquenghemDecoder<NR, 1, MSG, GF> D;
	typedef BoseChaudhuriHocquenghemEncoderReference<NR, 1, MSG, GF> ER;
	typedef BoseChaudhuriHocquenghemDecoderReference<NR, 1, MSG, GF> DR;
	static std::vector<int> minimal(list);
	std::vector<std::function<Out(E &)>> enc;
	std::vector<std::function<Out(D &)>> dec;
	std::vector<std::function<Out(ER &)>> encr;
	std::vector<std::function<Out(DR &)>> decr;
	ER e0(list);
	std::vector<uint8_t> kept;
	for (int k = 0; k < 7; ++k) {
		int n = k == 5 ? len - 1 : k % 2 ? len : MSG;
		std::vector<uint8_t> msg(n), par(NP), packed(2, 0);
		for (uint8_t &x : msg) x = rng->in(0, 1);
		/* the same message cut short, and the same word with erasures */
		if (k == 4) kept = msg;
		if (k >= 5) msg.assign(kept.begin(), kept.begin() + n);
		for (int i = 0; i < n; ++i) set_be_bit(packed.data(), i, msg[i]);
		e0(reinterpret_cast<const typename GF::ValueType *>(msg.data()), reinterpret_cast<typename GF::ValueType *>(par.data()), n);
		enc.push_back(FN(E, [packed, n](E &e) {
			Keep<uint8_t> d(packed);
			Junk<uint8_t> p(2);
			e(d.data(), p.data(), n);
			Out r;
			for (int i = 0; i < NP; ++i) r.b(get_be_bit(p.data(), i));
			r.same = d.same() && p.intact();
			return r;
		}));
		encr.push_back(FN(ER, [msg, n](ER &e) {
			Keep<uint8_t> d(msg);
			Junk<uint8_t> p(NP);
			e(reinterpret_cast<const typename GF::ValueType *>(d.data()), reinterpret_cast<typename GF::ValueType *>(p.data()), n);
			Out r;
			r.p(p.data(), NP);
			r.same = d.same() && p.intact();
			return r;
		}));
		std::vector<uint8_t> word(msg), era;
		word.insert(word.end(), par.begin(), par.end());
		int errs = k == 0 ? 0 : k == 1 ? NR / 2 : k == 2 ? 1 : k == 3 ? NR : 2;
		for (int i = 0; i < errs; ++i) { int q = (2 + i * 3 + std::min(k, 4)) % (n + NP); word[q] ^= 1; if (k == 4) era.push_back(q); }
		dec.push_back(FN(D, [word, era, n](D &d) {
			Guarded<uint8_t> a(2, 0), b(2, 0), e(NR);
			for (int i = 0; i < n; ++i) set_be_bit(a.data(), i, word[i]);
			for (int i = 0; i < NP; ++i) set_be_bit(b.data(), i, word[n + i]);
			for (size_t i = 0; i < era.size(); ++i) e[i] = era[i];
			Out r;
			r.ret = d(a.data(), b.data(), e.data(), era.size(), n);
			r.p(a.data(), 2);
			r.p(b.data(), 2);
			r.same = a.intact() && b.intact() && e.intact();
			return r;
		}));
		decr.push_back(FN(DR, [word, era, n](DR &d) {
			Guarded<uint8_t> a(n), b(NP), e(NR);
			for (int i = 0; i < n; ++i) a[i] = word[i];
			for (int i = 0; i < NP; ++i) b[i] = word[n + i];
			for (size_t i = 0; i < era.size(); ++i) e[i] = era[i];
			Out r;
			r.ret = d(reinterpret_cast<typename GF::ValueType *>(a.data()), reinterpret_cast<typename GF::ValueType *>(b.data()), reinterpret_cast<typename GF::IndexType *>(e.data()), era.size(), n);
			r.p(a.data(), n);
			r.p(b.data(), NP);
			r.same = a.intact() && b.intact() && e.intact();
			return r;
		}));
	}
	std::initializer_list<int> l = list;
	history<E>("BCH encoder", [l](void *p) { return new(p) E(l); }, enc);
	history<ER>("BCH reference encoder", [l](void *p) { return new(p) ER(l); }, encr);
	history<D>("BCH decoder", def<D>, dec);
	history<DR>("BCH reference decoder", def<DR>, decr);
}
static void all()
{
	rs<4, 19, uint8_t, 4, 1>(6);
	rs<4, 19, uint16_t, 3, 0>(5);
	rs<5, 37, uint8_t, 6, 1>(9);
	rs<8, 285, uint8_t, 8, 0>(40);
	bch<4, 7>({ 0b10011, 0b11111 }, 5);
	bch<2, 11>({ 0b10011 }, 3);
	bch<6, 5>({ 0b10011, 0b11111, 0b00111 }, 4);
}
#elif PART == 1
template <int M, int P, typename T>
static void crs(int cnt, int len)
{
	typedef GaloisField<M, P, T> GF;
	field<GF>();
	typedef CauchyReedSolomonErasureCoding<GF> O;
	std::vector<std::function<Out(O &)>> in;
	O o;
	std::vector<T> data(cnt * len);
	for (T &x : data) x = rng->in(0, GF::N);
	int id = rng->in(cnt, GF::N), other = id + 1 > int(GF::N) ? id - 1 : id + 1;
	/* first one of them, then one thing changed at a time */
	for (int k = 0; k < 7; ++k) {
		int c = k == 1 ? std::max(1, cnt - 1) : cnt, n = k == 2 ? len - 1 : len;
		if (k == 3) data[0] ^= 1;
		if (k == 4) id = other;
		std::vector<T> ids(c), blocks(c * n);
		if (k < 5)
		in.push_back(FN(O, [=](O &o) {
			Keep<T> d(data);
			Junk<T> b(n);
			for (int i = 0; i < n; ++i) b[i] &= GF::N;
			o.encode(d.data(), b.data(), id, n, c);
			Out r;
			r.p(b.data(), n);
			r.same = d.same() && b.intact();
			return r;
		}));
		for (int i = 0; i < c; ++i) { ids[i] = c + (i * 5 + (k == 5)) % (int(GF::N) + 1 - c); for (int j = 0; j < i; ++j) if (ids[j] == ids[i]) { ids[i] = c + (ids[i] - c + 1) % (GF::N + 1 - c); j = -1; } }
		for (int i = 0; i < c; ++i) o.encode(data.data(), blocks.data() + i * n, ids[i], n, c);
		int idx = k == 6;
		if (k != 4)
			in.push_back(FN(O, [=](O &o) {
				Keep<T> b(blocks), i(ids);
				Junk<T> d(n);
				for (int j = 0; j < n; ++j) d[j] &= GF::N;
				o.decode(d.data(), b.data(), i.data(), idx, n, c);
				Out r;
				r.p(d.data(), n);
				r.same = d.intact() && b.same() && i.same();
				return r;
			}));
	}
	history<O>("Cauchy Reed-Solomon", def<O>, in);
}
template <uint32_t P, typename IO>
static void cpf(int cnt, int len)
{
	typedef PrimeField<uint64_t, P> PF;
	typedef CauchyPrimeFieldErasureCoding<PF, IO, 64> O;
	std::vector<std::function<Out(O &)>> in;
	std::unique_ptr<O> o(new O);
	std::vector<IO> data(cnt * len);
	for (IO &x : data) x = rng->in(0, std::min<uint64_t>(std::numeric_limits<IO>::max(), P - 1));
	int id = rng->in(cnt, std::min<uint64_t>(P / 2 - 1, 200));
	/* one thing changed at a time */
	for (int k = 0; k < 7; ++k) {
		int c = k == 1 ? std::max(1, cnt - 1) : cnt, n = k == 2 ? len - 1 : len;
		std::vector<IO> ids(c), blocks(c * n), subs(c);
		if (k == 3)
			for (IO &x : data) x = std::min<uint64_t>(std::numeric_limits<IO>::max(), P) - rng->in(0, 3);
		if (k == 4) ++id;
		if (k < 5)
		in.push_back(FN(O, [=](O &o) {
			Keep<IO> d(data);
			Junk<IO> b(n);
			Out r;
			r.ret = o.encode(d.data(), b.data(), id, n, c);
			r.p(b.data(), n);
			r.same = d.same() && b.intact();
			return r;
		}));
		for (int i = 0; i < c; ++i) ids[i] = c + i * 3 + (k == 5);
		for (int i = 0; i < c; ++i) subs[i] = o->encode(data.data(), blocks.data() + i * n, ids[i], n, c);
		int idx = k == 6;
		if (k != 4)
			in.push_back(FN(O, [=](O &o) {
				Keep<IO> b(blocks), i(ids), s(subs);
				Junk<IO> d(n);
				o.decode(d.data(), b.data(), s.data(), i.data(), idx, n, c);
				Out r;
				r.p(d.data(), n);
				r.same = d.intact() && b.same() && i.same() && s.same();
				return r;
			}));
	}
	history<O>("Cauchy prime field", def<O>, in);
}
template <int N, int K, int G, int T>
static void shortbch()
{
	typedef ShortBCHCodeEncoder<N, K, G> E;
	typedef ShortBCHCodeDecoder<N, K, G, T> D;
	std::vector<std::function<Out(E &)>> enc;
	std::vector<std::function<Out(D &)>> dec;
	std::unique_ptr<E> e0(new E);
	for (int k = 0; k < 5; ++k) {
		int m = rng->in(0, (1 << K) - 1);
		enc.push_back(FN(E, [m, k](E &e) {
			Out r;
			if (k % 2) { Junk<int8_t> c(N); r.ret = e(c.data(), m); r.p(c.data(), N); r.same = c.intact(); }
			else r.ret = e(m);
			return r;
		}));
		int w = (*e0)(m) ^ (k == 0 ? 0 : k == 1 ? 1 << rng->in(0, N - 1) : k == 2 ? (1 << N) - 1 : int(rng->u64() & ((1 << N) - 1)));
		std::vector<int8_t> soft(N);
		for (int i = 0; i < N; ++i) soft[i] = ((w >> i) & 1 ? -1 : 1) * rng->in(1, k == 4 ? 2 : 100);
		dec.push_back(FN(D, [w](D &d) { Out r; r.ret = d(w); return r; }));
		if (k) dec.push_back(FN(D, [soft](D &d) { Keep<int8_t> s(soft); Out r; r.ret = d(s.data()); r.same = s.same(); return r; }));
	}
	dec.resize(7);
	history<E>("short BCH encoder", def<E>, enc);
	history<D>("short BCH decoder", def<D>, dec);
}
template <typename E, typename D, int N, int K>
static void had(const char *ne, const char *nd)
{
	std::vector<std::function<Out(E &)>> enc;
	std::vector<std::function<Out(D &)>> dec;
	for (int k = 0; k < 5; ++k) {
		int m = rng->in(0, (1 << K) - 1);
		enc.push_back(FN(E, [m](E &e) { Out r; Junk<int8_t> c(N); e(c.data(), m); r.p(c.data(), N); r.same = c.intact(); return r; }));
		std::vector<int8_t> c(N), s(N);
		E e;
		e(c.data(), m);
		for (int i = 0; i < N; ++i) s[i] = k == 0 ? c[i] * 100 : k == 1 ? 0 : k == 2 ? c[i] * rng->in(-10, 60) : k == 3 ? -128 : rng->in(-128, 127);
		dec.push_back(FN(D, [s](D &d) { Keep<int8_t> x(s); Out r; r.ret = d(x.data()); r.same = x.same(); return r; }));
	}
	history<E>(ne, def<E>, enc);
	history<D>(nd, def<D>, dec);
}
template <int K> static void hads()
{
	had<HadamardEncoder<K>, HadamardDecoder<K>, 1 << (K - 1), K>("Hadamard encoder", "Hadamard decoder");
	had<SimplexEncoder<K>, SimplexDecoder<K>, (1 << K) - 1, K>("simplex encoder", "simplex decoder");
}
static void all()
{
	crs<4, 19, uint8_t>(5, 16); crs<8, 285, uint8_t>(9, 64); crs<8, 285, uint8_t>(3, 37); crs<16, 69643, uint16_t>(4, 40); crs<5, 37, uint16_t>(4, 5);
	cpf<257, uint8_t>(6, 30); cpf<65537, uint16_t>(5, 40); cpf<8209, uint16_t>(4, 12); cpf<65537, uint32_t>(3, 9);
	shortbch<15, 7, 0b111010001, 2>(); shortbch<15, 5, 0b10100110111, 3>(); shortbch<7, 4, 0b1011, 1>();
	hads<2>(); hads<3>(); hads<4>(); hads<5>(); hads<7>();
}
#elif PART == 2
template <int N, int K, int O, int L>
static void osd(std::initializer_list<int> mins)
{
	typedef OrderedStatisticsDecoder<N, K, O> D;
	typedef OrderedStatisticsListDecoder<N, K, O, L> LD;
	typedef LinearEncoder<N, K> E;
	std::vector<int8_t> gm(N * K), sm(N * K);
	BoseChaudhuriHocquenghemGenerator<N, K>::matrix(gm.data(), false, mins);
	BoseChaudhuriHocquenghemGenerator<N, K>::matrix(sm.data(), true, mins);
	/* another code: each word backwards */
	std::vector<int8_t> bm(N * K);
	for (int j = 0; j < K; ++j)
		for (int i = 0; i < N; ++i) bm[N * j + i] = sm[N * j + N - 1 - i];
	std::vector<std::function<Out(E &)>> enc;
	std::vector<std::function<Out(D &)>> dec;
	std::vector<std::function<Out(LD &)>> lst;
	const int B = (N + 7) / 8;
	E e0;
	std::vector<uint8_t> msg((K + 7) / 8), code(B);
	std::vector<int8_t> soft;
	for (int k = 0; k < 7; ++k) {
		/* the last one: the same with the other matrix */
		if (k < 6) for (uint8_t &x : msg) x = rng->u64();
		std::vector<int8_t> g = k == 6 ? bm : k % 3 == 2 ? gm : sm;
		soft.resize(N);
		enc.push_back(FN(E, [msg, g](E &e) {
			Keep<uint8_t> m(msg);
			Keep<int8_t> gg(g);
			Junk<uint8_t> c(B);
			e(c.data(), m.data(), gg.data());
			Out r;
			for (int i = 0; i < N; ++i) r.b(get_be_bit(c.data(), i));
			r.same = m.same() && gg.same() && c.intact();
			return r;
		}));
		e0(code.data(), msg.data(), g.data());
		for (int i = 0; k < 6 && i < N; ++i) {
			int s = get_be_bit(code.data(), i) ? -1 : 1;
			soft[i] = k == 0 ? s * 90 : k == 1 ? 0 : k == 2 ? s * rng->in(-12, 40) : k == 3 ? rng->in(-3, 3) : k == 4 ? rng->in(-128, 127) : s * rng->in(-2, 6);
		}
		dec.push_back(FN(D, [soft, g](D &d) {
			Keep<int8_t> s(soft), gg(g);
			Junk<uint8_t> h(B);
			Out r;
			r.ret = d(h.data(), s.data(), gg.data());
			for (int i = 0; i < N; ++i) r.b(get_be_bit(h.data(), i));
			r.same = s.same() && gg.same() && h.intact();
			return r;
		}));
		lst.push_back(FN(LD, [soft, g](LD &d) {
			Keep<int8_t> s(soft), gg(g);
			Junk<uint8_t> h(B * L);
			Junk<int> rank(L);
			d(rank.data(), h.data(), s.data(), gg.data());
			Out r;
			r.p(rank.data(), L);
			for (int j = 0; j < L; ++j) for (int i = 0; i < N; ++i) r.b(get_be_bit(h.data() + j * B, i));
			r.same = s.same() && gg.same() && h.intact() && rank.intact();
			return r;
		}));
	}
	history<E>("linear encoder", def<E>, enc);
	history<D>("ordered statistics decoder", def<D>, dec);
	history<LD>("ordered statistics list decoder", def<LD>, lst);
}
/* no two links of a check in the same words: the order of writes does not matter */
struct Table
{
	static const int M = 60, K = 120, N = 180, LINKS_MIN_CN = 3, LINKS_MAX_CN = 6, LINKS_TOTAL = 60 * 3 + 2 * 60 - 1, DEG_MAX = 3;
	static const int DEG[], LEN[], POS[];
};
const int Table::DEG[] = { 2, 1, 0 };
const int Table::LEN[] = { 1, 1, 0 };
const int Table::POS[] = { 0, 33, 14 };
struct Table2
{
	static const int M = 60, K = 120, N = 240, LINKS_MIN_CN = 3, LINKS_MAX_CN = 5, LINKS_TOTAL = 60 * 5 + 2 * 120 - 1, DEG_MAX = 3;
	static const int DEG[], LEN[], POS[];
};
const int Table2::DEG[] = { 3, 2, 0 };
const int Table2::LEN[] = { 1, 1, 0 };
const int Table2::POS[] = { 2, 15, 37, 0, 71 };
template <typename T, int BETA>
static void ldpc()
{
	typedef LDPCEncoder<T> E;
	typedef LDPCDecoder<T, BETA> D;
	static const int K = T::K, R = T::N - T::K;
	std::vector<std::function<Out(E &)>> enc;
	std::vector<std::function<Out(D &)>> dec;
	std::unique_ptr<E> e0(new E);
	std::vector<int8_t> word, easy;
	int need = 0;
	for (int k = 0; k < 10; ++k) {
		std::vector<int8_t> msg(K);
		for (int8_t &x : msg) x = rng->one_in(2) ? 1 : -1;
		std::vector<int8_t> par(R);
		(*e0)(msg.data(), par.data());
		if (k < 3)
			enc.push_back(FN(E, [msg](E &e) {
				Keep<int8_t> m(msg);
				Junk<int8_t> p(R);
				e(m.data(), p.data());
				Out r;
				r.p(p.data(), R);
				r.same = m.same() && p.intact();
				return r;
			}));
		word = msg;
		word.insert(word.end(), par.begin(), par.end());
		/* the last ones: the same with other trials */
		if (k >= 6) word = easy;
		else for (int8_t &x : word) x = k == 0 ? x * 50 : k == 1 ? 0 : k == 2 ? x * rng->in(-3, 20) : k == 3 ? rng->in(-127, 127) : k == 4 ? x * rng->in(-2, 8) : rng->one_in(8) ? -x * rng->in(0, 40) : rng->one_in(30) ? -128 : x * 60;
		if (k == 2) {
			/* how many it takes */
			std::vector<int8_t> w(easy = word);
			std::unique_ptr<D> d(new D);
			need = std::max(1, 10 - (*d)(w.data(), w.data() + K, 10));
		}
		int trials = k == 3 ? 3 : k == 4 ? 0 : k == 6 ? need - 1 : k == 7 ? need : k == 8 ? 25 : k == 9 ? 25 + need : 10;
		dec.push_back(FN(D, [word, trials](D &d) {
			Guarded<int8_t> m(K), p(R);
			std::copy(word.begin(), word.begin() + K, m.data());
			std::copy(word.begin() + K, word.end(), p.data());
			Out r;
			r.ret = trials == 25 ? d(m.data(), p.data()) : d(m.data(), p.data(), trials);
			r.p(m.data(), K);
			r.p(p.data(), R);
			r.same = m.intact() && p.intact();
			return r;
		}));
	}
	history<E>("LDPC encoder", def<E>, enc);
	history<D>("LDPC decoder", def<D>, dec);
}
static void all()
{
	osd<15, 7, 2, 4>({ 0b10011, 0b11111 });
	osd<15, 5, 1, 3>({ 0b10011, 0b11111, 0b111 });
	osd<31, 11, 2, 8>({ 0b100101, 0b111101, 0b110111, 0b101111 });
	ldpc<Table, 0>(); ldpc<Table2, 1>();
}
#else
struct Set
{
	int level, K;
	std::vector<uint32_t> f;
	explicit Set(int level, int K) : level(level), K(K), f(std::max(1, (1 << level) / 32), 0)
	{
		static PolarCodeConst0<10> con;
		con(f.data(), level, K);
	}
	int N() const { return 1 << level; }
	/* another one of as many, or the first part of it */
	Set other() const
	{
		Set s(*this);
		for (int i = 0, swapped = 0; i < 2000 && swapped < 3; ++i) {
			int a = rng->in(0, N() - 1), b = rng->in(0, N() - 1);
			if ((s.f[a / 32] >> a % 32 & 1) && !(s.f[b / 32] >> b % 32 & 1)) {
				s.f[a / 32] ^= 1u << a % 32;
				s.f[b / 32] ^= 1u << b % 32;
				++swapped;
			}
		}
		return s;
	}
	Set half() const
	{
		Set s(*this);
		--s.level;
		s.f.resize(std::max(1, (1 << s.level) / 32));
		s.K = 0;
		for (int i = 0; i < s.N(); ++i) s.K += !(s.f[i / 32] >> i % 32 & 1);
		return s;
	}
	static Set scattered(int level)
	{
		Set s(level, 1 << (level - 1));
		s.K = 0;
		for (uint32_t &x : s.f) x = rng->u64();
		if (level < 5) s.f[0] |= ~0u << (1 << level);
		s.f[0] &= ~(1u << 1);
		for (int i = 0; i < s.N(); ++i) s.K += !(s.f[i / 32] >> i % 32 & 1);
		return s;
	}
};
/* a code, other sets of the same size, its first half, and other codes */
static std::vector<Set> sets(int level)
{
	std::vector<Set> v;
	v.push_back(Set::scattered(level));
	v.push_back(v[0].other());
	v.push_back(v[0].half());
	v.push_back(Set(level + 1, (1 << level) + 5));
	v.push_back(Set(level, (1 << level) / 2 - 6));
	return v;
}
static void resize_with(std::vector<int8_t> &c, int n)
{
	int had = c.size();
	c.resize(n);
	for (int i = had; i < n; ++i) c[i] = rng->one_in(2) ? 1 : -1;
}
static std::vector<int8_t> noisy(const std::vector<int8_t> &c, int k)
{
	std::vector<int8_t> s(c);
	for (int8_t &x : s) x = k % 5 == 0 ? x * 30 : k % 5 == 1 ? 0 : k % 5 == 2 ? x * rng->in(-4, 20) : k % 5 == 3 ? rng->in(-128, 127) : x * rng->in(-1, 2);
	return s;
}
template <typename T>
static void encoders()
{
	typedef PolarEncoder<T> E;
	typedef PolarSysEnc<T> S;
	typedef PolarParityEncoder<T> Q;
	std::vector<std::function<Out(E &)>> enc;
	std::vector<std::function<Out(S &)>> sys;
	std::vector<std::function<Out(Q &)>> par;
	std::vector<Set> all = sets(6);
	std::vector<int8_t> bits;
	resize_with(bits, 200);
	for (int k = 0; k < 8; ++k) {
		/* 0 to 4: the same message through the codes, 5: another message, 6: another stride, 7: another first */
		Set set = all[k < 5 ? k : 0];
		if (k == 5) bits[set.K / 2] *= -1;
		std::vector<T> m(bits.begin(), bits.begin() + set.K);
		auto call = [set, m](auto &e, auto... more) {
			Keep<T> msg(m);
			Keep<uint32_t> f(set.f);
			Junk<T> c(set.N());
			e(c.data(), msg.data(), f.data(), set.level, more...);
			Out r;
			for (int i = 0; i < set.N(); ++i) r.b(int(c[i]));
			r.same = msg.same() && f.same() && c.intact();
			return r;
		};
		if (k < 6) {
			enc.push_back(FN(E, [call](E &e) { return call(e); }));
			sys.push_back(FN(S, [call](S &e) { return call(e); }));
		}
		int stride = k == 6 ? 4 : 3, first = k == 7 ? 1 : 2;
		par.push_back(FN(Q, [call, stride, first](Q &e) { return call(e, stride, first); }));
	}
	history<E>("polar encoder", def<E>, enc);
	history<S>("polar systematic encoder", def<S>, sys);
	history<Q>("polar parity encoder", def<Q>, par);
}
template <typename T>
static void sc()
{
	typedef PolarDecoder<T, 8> D;
	std::vector<std::function<Out(D &)>> dec;
	std::vector<Set> all = sets(7);
	std::vector<int8_t> s(256);
	for (int8_t &x : s) x = rng->in(-100, 100);
	for (int k = 0; k < 7; ++k) {
		/* 0 to 4: the same values through the codes, then a noisy codeword of the last and of the first */
		Set set = all[k == 5 ? 4 : k == 6 ? 0 : k];
		if (k >= 5) {
			std::vector<int8_t> m(set.K), c(set.N());
			for (int8_t &x : m) x = rng->one_in(2) ? 1 : -1;
			PolarEncoder<int8_t> enc;
			enc(c.data(), m.data(), set.f.data(), set.level);
			s = noisy(c, k == 5 ? 2 : 4);
		}
		std::vector<T> soft(s.begin(), s.begin() + set.N());
		dec.push_back(FN(D, [set, soft](D &d) {
			Keep<T> c(soft);
			Keep<uint32_t> f(set.f);
			Junk<T> m(set.K);
			d(m.data(), c.data(), f.data(), set.level);
			Out r;
			for (int i = 0; i < set.K; ++i) r.b(int(m[i]));
			r.same = c.same() && f.same() && m.intact();
			return r;
		}));
	}
	history<D>("polar decoder", def<D>, dec);
}
template <typename V, int L>
static void list()
{
	typedef SIMD<V, L> T;
	typedef PolarListDecoder<T, 8> D;
	typedef PolarParityDecoder<T, 8> P;
	std::vector<std::function<Out(D &)>> dec;
	std::vector<std::function<Out(P &)>> par;
	std::vector<Set> all = sets(6);
	std::vector<int8_t> s(128);
	for (int8_t &x : s) x = rng->in(-100, 100);
	for (int k = 0; k < 8; ++k) {
		/* 0 to 4: the same values through the codes, 5: a noisy codeword, 6: another stride, 7: another first */
		Set set = all[k < 5 ? k : 4];
		if (k == 5) {
			std::vector<int8_t> m(set.K), c(set.N());
			for (int8_t &x : m) x = rng->one_in(2) ? 1 : -1;
			PolarEncoder<int8_t> enc;
			enc(c.data(), m.data(), set.f.data(), set.level);
			s = noisy(c, 2);
		}
		std::vector<V> soft(s.begin(), s.begin() + set.N());
		int stride = k == 6 ? 6 : 5, first = k == 7 ? 3 : 2;
		auto call = [set, soft](auto &d, int K, auto... more) {
			Keep<V> c(soft);
			Keep<uint32_t> f(set.f);
			Junk<int> rank(L);
			std::vector<T> m(K + 2);
			for (int i = 0; i < K + 2; ++i) for (int j = 0; j < L; ++j) m[i].v[j] = V((fill = fill * 1664525 + 1013904223) >> 26);
			T lo = m[0], hi = m[K + 1];
			d(rank.data(), m.data() + 1, c.data(), f.data(), set.level, more...);
			Out r;
			r.p(rank.data(), L);
			for (int i = 1; i <= K; ++i) for (int j = 0; j < L; ++j) r.b(int(m[i].v[j]));
			r.same = c.same() && f.same() && rank.intact();
			for (int j = 0; j < L; ++j) r.same = r.same && lo.v[j] == m[0].v[j] && hi.v[j] == m[K + 1].v[j];
			return r;
		};
		int K = set.K, n = 0, left = first;
		for (int i = 0; i < K; ++i) if (left) { --left; ++n; } else left = stride;
		if (k < 6)
			dec.push_back(FN(D, [call, K](D &d) { return call(d, K); }));
		par.push_back(FN(P, [call, n, stride, first](P &d) { return call(d, n, stride, first); }));
	}
	history<D>("polar list decoder", def<D>, dec);
	history<P>("polar parity decoder", def<P>, par);
}
static void construction()
{
	typedef PolarFreezer F;
	typedef PolarCodeConst0<8> C;
	typedef PolarSeqConst0<8> Q;
	std::vector<std::function<Out(F &)>> fr;
	std::vector<std::function<Out(C &)>> co;
	std::vector<std::function<Out(Q &)>> se;
	/* one thing changed at a time */
	for (int k = 0; k < 6; ++k) {
		int level = k == 1 ? 5 : k == 2 ? 8 : 7, words = 1 << (level - 5), K = k == 5 ? 50 : 20;
		double pe = k == 3 ? .6 : .4, limit = k == 4 ? .1 : .3;
		fr.push_back(FN(F, [=](F &f) {
			Junk<uint32_t> b(words);
			Out r;
			r.ret = k == 5 ? f(b.data(), level) : f(b.data(), level, pe, limit);
			r.p(b.data(), words);
			r.same = b.intact();
			return r;
		}));
		co.push_back(FN(C, [=](C &c) {
			Junk<uint32_t> b(words);
			if (k == 4) c(b.data(), level, K);
			else c(b.data(), level, K, pe);
			Out r;
			r.p(b.data(), words);
			r.same = b.intact();
			return r;
		}));
		if (k < 5)
		se.push_back(FN(Q, [=](Q &q) {
			Junk<int> s(1 << level);
			if (k == 4) q(s.data(), level);
			else q(s.data(), level, pe);
			Out r;
			r.p(s.data(), 1 << level);
			r.same = s.intact();
			return r;
		}));
	}
	history<F>("polar freezer", def<F>, fr);
	history<C>("polar code construction", def<C>, co);
	history<Q>("polar sequence construction", def<Q>, se);
}
static void all()
{
	encoders<int8_t>(); encoders<float>();
	sc<int8_t>(); sc<float>();
	list<int8_t, 8>(); list<int8_t, 32>(); list<float, 4>(); list<int8_t, 16>();
	construction();
}
#endif
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng r(300 + PART);
	rng = &r;
	fill = uint32_t(r.u64());
	all();
	return vt_done();
}
