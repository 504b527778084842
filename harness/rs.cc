/*
Reed-Solomon and BCH codecs.
PART selects the code family: 0 = RS small fields, 1 = RS large, 2 = BCH small, 3 = BCH large;
whole words of larger fields: 4, 5 = RS, 6, 7 = BCH; hundreds of roots: 8 = RS, 9 = BCH
argv[2]: enc, dec (within capacity), bey (beyond capacity) or syn (syndromes)
*/
#include "trace.hh"
#include <map>
#include <set>
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
using namespace CODE;
typedef std::vector<int> Word;
static std::string mode;
static long replayed;

struct Codec
{
	int M, P, NR, FCR, N, K, NP;
	bool bin;
	const char *name;
	virtual ~Codec() {}
	virtual Word enc(const Word &msg, Word &after, bool &intact, Rng &rng) = 0;
	virtual int dec(Word &word, const Word &era, bool &intact, Rng &rng) = 0;
	virtual int syn(const Word &word, Word &out, bool &intact, Rng &rng) = 0;
};
template <int M_, int P_, typename T, int NR_, int FCR_>
struct RsCodec : Codec
{
	typedef GaloisField<M_, P_, T> GF;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	ReedSolomonEncoder<NR_, FCR_, GF> *e;
	ReedSolomonDecoder<NR_, FCR_, GF> *d;
	RsCodec(const char *nm)
	{
		M = M_; P = P_; NR = NR_; FCR = FCR_; N = GF::N; K = N - NR; NP = NR; bin = false; name = nm;
		e = opaque(new ReedSolomonEncoder<NR_, FCR_, GF>());
		d = opaque(new ReedSolomonDecoder<NR_, FCR_, GF>());
	}
	~RsCodec() { delete e; delete d; }
	Word enc(const Word &msg, Word &after, bool &intact, Rng &rng)
	{
		int n = msg.size();
		Guarded<T> data(n, T(0x15)), par(NP, T(rng.in(0, N)));
		for (int i = 0; i < n; ++i) data[i] = msg[i];
		for (int i = 0; i < NP; ++i) par[i] = rng.in(0, N);
		if (rng.one_in(2)) (*e)(data.data(), par.data(), n);
		else (*e)(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), n);
		after = Word(data.data(), data.data() + n);
		intact = data.intact() && par.intact();
		return Word(par.data(), par.data() + NP);
	}
	int dec(Word &word, const Word &era, bool &intact, Rng &rng)
	{
		int n = word.size() - NP;
		Guarded<T> data(n, T(0x15)), par(NP, T(0x0a)), er(NP, T(1));
		for (int i = 0; i < n; ++i) data[i] = word[i];
		for (int i = 0; i < NP; ++i) par[i] = word[n + i];
		for (int i = 0; i < (int)era.size(); ++i) er[i] = era[i];
		int ret;
		bool raw = rng.one_in(2);
		if (raw && n == K && era.empty()) ret = (*d)(data.data(), par.data());
		else if (raw) ret = (*d)(data.data(), par.data(), er.data(), era.size(), n);
		else if (n == K && era.empty()) ret = (*d)(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()));
		else ret = (*d)(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), reinterpret_cast<I *>(er.data()), era.size(), n);
		for (int i = 0; i < n; ++i) word[i] = data[i];
		for (int i = 0; i < NP; ++i) word[n + i] = par[i];
		intact = data.intact() && par.intact() && er.intact();
		return ret;
	}
	int syn(const Word &word, Word &out, bool &intact, Rng &rng)
	{
		int n = word.size() - NP;
		Guarded<T> data(n, T(0x15)), par(NP, T(0x0a)), s(NR, T(1));
		for (int i = 0; i < n; ++i) data[i] = word[i];
		for (int i = 0; i < NP; ++i) par[i] = word[n + i];
		for (int i = 0; i < NR; ++i) s[i] = rng.in(0, N);
		int ret;
		bool raw = rng.one_in(2);
		if (raw && n == K) ret = d->compute_syndromes(data.data(), par.data(), s.data());
		else if (raw) ret = d->compute_syndromes(data.data(), par.data(), s.data(), n);
		else if (n == K) ret = d->compute_syndromes(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), reinterpret_cast<V *>(s.data()));
		else ret = d->compute_syndromes(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), reinterpret_cast<V *>(s.data()), n);
		intact = data.intact() && par.intact() && s.intact();
		for (int i = 0; i < n; ++i) intact = intact && data[i] == T(word[i]);
		for (int i = 0; i < NP; ++i) intact = intact && par[i] == T(word[n + i]);
		out = Word(s.data(), s.data() + NR);
		return ret;
	}
};
template <int M_, int P_, typename T, int NR_, int FCR_, int MSG>
struct BchRef : Codec
{
	typedef GaloisField<M_, P_, T> GF;
	typedef typename GF::ValueType V;
	typedef typename GF::IndexType I;
	BoseChaudhuriHocquenghemEncoderReference<NR_, FCR_, MSG, GF> *e;
	BoseChaudhuriHocquenghemDecoderReference<NR_, FCR_, MSG, GF> *d;
	BchRef(const char *nm, std::initializer_list<int> l)
	{
		M = M_; P = P_; NR = NR_; FCR = FCR_; N = GF::N; K = MSG; NP = N - MSG; bin = true; name = nm;
		e = opaque(new BoseChaudhuriHocquenghemEncoderReference<NR_, FCR_, MSG, GF>(l));
		d = opaque(new BoseChaudhuriHocquenghemDecoderReference<NR_, FCR_, MSG, GF>());
	}
	~BchRef() { delete e; delete d; }
	Word enc(const Word &msg, Word &after, bool &intact, Rng &rng)
	{
		int n = msg.size();
		Guarded<T> data(n, T(0x15)), par(NP, T(1));
		for (int i = 0; i < n; ++i) data[i] = msg[i];
		for (int i = 0; i < NP; ++i) par[i] = rng.in(0, N);
		(*e)(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), n);
		after = Word(data.data(), data.data() + n);
		intact = data.intact() && par.intact();
		return Word(par.data(), par.data() + NP);
	}
	int dec(Word &word, const Word &era, bool &intact, Rng &rng)
	{
		int n = word.size() - NP;
		Guarded<T> data(n, T(0x15)), par(NP, T(0x0a)), er(NR, T(1));
		for (int i = 0; i < n; ++i) data[i] = word[i];
		for (int i = 0; i < NP; ++i) par[i] = word[n + i];
		for (int i = 0; i < (int)era.size(); ++i) er[i] = era[i];
		int ret = (*d)(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), reinterpret_cast<I *>(er.data()), era.size(), n);
		for (int i = 0; i < n; ++i) word[i] = data[i];
		for (int i = 0; i < NP; ++i) word[n + i] = par[i];
		intact = data.intact() && par.intact() && er.intact();
		return ret;
	}
	int syn(const Word &word, Word &out, bool &intact, Rng &rng)
	{
		int n = word.size() - NP;
		Guarded<T> data(n, T(0x15)), par(NP, T(0x0a)), s(NR, T(1));
		for (int i = 0; i < n; ++i) data[i] = word[i];
		for (int i = 0; i < NP; ++i) par[i] = word[n + i];
		for (int i = 0; i < NR; ++i) s[i] = rng.in(0, N);
		int ret;
		if (n == K && rng.one_in(2)) ret = d->compute_syndromes(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), reinterpret_cast<V *>(s.data()));
		else ret = d->compute_syndromes(reinterpret_cast<V *>(data.data()), reinterpret_cast<V *>(par.data()), reinterpret_cast<V *>(s.data()), n);
		intact = data.intact() && par.intact() && s.intact();
		for (int i = 0; i < n; ++i) intact = intact && data[i] == T(word[i]);
		for (int i = 0; i < NP; ++i) intact = intact && par[i] == T(word[n + i]);
		out = Word(s.data(), s.data() + NR);
		return ret;
	}
};
template <int M_, int P_, typename T, int NR_, int FCR_, int MSG>
struct BchPacked : Codec
{
	typedef GaloisField<M_, P_, T> GF;
	BoseChaudhuriHocquenghemEncoder<GF::N, MSG> *e;
	BoseChaudhuriHocquenghemDecoder<NR_, FCR_, MSG, GF> *d;
	BchPacked(const char *nm, std::initializer_list<int> l)
	{
		M = M_; P = P_; NR = NR_; FCR = FCR_; N = GF::N; K = MSG; NP = N - MSG; bin = true; name = nm;
		e = opaque(new BoseChaudhuriHocquenghemEncoder<GF::N, MSG>(l));
		d = opaque(new BoseChaudhuriHocquenghemDecoder<NR_, FCR_, MSG, GF>());
	}
	~BchPacked() { delete e; delete d; }
	/* our own packing, first bit = most significant bit of first byte; padding is noise */
	static void pack(Guarded<uint8_t> &b, const int *w, int n, Rng &rng)
	{
		for (int i = 0; i < b.n; ++i) b[i] = rng.in(0, 255);
		for (int i = 0; i < n; ++i) {
			int m = 128 >> (i & 7);
			b[i >> 3] = (b[i >> 3] & ~m) | (w[i] ? m : 0);
		}
	}
	static void unpack(Guarded<uint8_t> &b, int *w, int n)
	{
		for (int i = 0; i < n; ++i) w[i] = (b[i >> 3] >> (7 - (i & 7))) & 1;
	}
	Word enc(const Word &msg, Word &after, bool &intact, Rng &rng)
	{
		int n = msg.size();
		Guarded<uint8_t> data((n + 7) / 8), par((NP + 7) / 8);
		pack(data, msg.data(), n, rng);
		Guarded<uint8_t> copy(data);
		for (int i = 0; i < par.n; ++i) par[i] = rng.in(0, 255);
		(*e)(data.data(), par.data(), n);
		after = Word(n);
		unpack(data, after.data(), n);
		intact = data.intact() && par.intact() && data.v == copy.v;
		Word p(NP);
		unpack(par, p.data(), NP);
		return p;
	}
	int dec(Word &word, const Word &era, bool &intact, Rng &rng)
	{
		int n = word.size() - NP;
		Guarded<uint8_t> data((n + 7) / 8), par((NP + 7) / 8);
		Guarded<T> er(NR, T(1));
		pack(data, word.data(), n, rng);
		pack(par, word.data() + n, NP, rng);
		int pd = data[data.n - 1], pp = par[par.n - 1];
		for (int i = 0; i < (int)era.size(); ++i) er[i] = era[i];
		int ret = (*d)(data.data(), par.data(), er.data(), era.size(), n);
		unpack(data, word.data(), n);
		unpack(par, word.data() + n, NP);
		/* padding bits stay */
		int md = n & 7 ? 255 >> (n & 7) : 0, mp = NP & 7 ? 255 >> (NP & 7) : 0;
		intact = data.intact() && par.intact() && er.intact() && !((pd ^ data[data.n - 1]) & md) && !((pp ^ par[par.n - 1]) & mp);
		return ret;
	}
	int syn(const Word &word, Word &out, bool &intact, Rng &rng)
	{
		typedef typename GF::ValueType V;
		int n = word.size() - NP, ret;
		Guarded<uint8_t> data((n + 7) / 8), par((NP + 7) / 8);
		Guarded<T> s(NR, T(1));
		pack(data, word.data(), n, rng);
		pack(par, word.data() + n, NP, rng);
		for (int i = 0; i < NR; ++i) s[i] = rng.in(0, N);
		Guarded<uint8_t> was(data), pas(par);
		V *v = reinterpret_cast<V *>(s.data());
		switch (rng.in(0, 1) + 2 * (n == K && rng.one_in(2))) {
		case 0: ret = d->compute_syndromes(data.data(), par.data(), s.data(), n); break;
		case 1: ret = d->compute_syndromes(data.data(), par.data(), v, n); break;
		case 2: ret = d->compute_syndromes(data.data(), par.data(), s.data()); break;
		default: ret = d->compute_syndromes(data.data(), par.data(), v); break;
		}
		intact = data.intact() && par.intact() && s.intact() && data.v == was.v && par.v == pas.v;
		out = Word(s.data(), s.data() + NR);
		return ret;
	}
};
static void begin(Codec &c, int w = 0)
{
	Ev e("Begin");
	e.i("M", c.M).i("P", c.P).i("NR", c.NR).i("FCR", c.FCR).b("bin", c.bin).i("NP", c.NP).i("K", c.K).str("t", c.name);
	if (w) e.i("w", w);
	e.end();
}
static Word message(Codec &c, int n, Rng &rng)
{
	int top = c.bin ? 1 : c.N;
	Word m(n);
	int kind = rng.in(0, 5);
	for (int i = 0; i < n; ++i)
		m[i] = kind == 0 ? 0 : kind == 1 ? top : kind == 2 ? (i == 0 || i == n - 1 ? top : 0) : rng.in(0, top);
	if (kind == 3) { for (int &x : m) x = 0; m[rng.in(0, n - 1)] = rng.in(1, top); }
	return m;
}
static int pick_len(Codec &c, Rng &rng, int maxlen)
{
	int lens[] = { c.K, c.K, c.K, 1, 2, c.K - 1, c.K / 2, (int)rng.in(1, c.K), (int)rng.in(1, c.K) };
	int n = lens[rng.in(0, 8)];
	return std::max(1, std::min(n, std::min(c.K, maxlen)));
}
static Word encode(Codec &c, const Word &msg, Rng &rng, bool log)
{
	Word after; bool intact;
	doing("%s encode len=%d", c.name, (int)msg.size());
	Word par = c.enc(msg, after, intact, rng);
	if (log) Ev("Encode").a("msg", msg).a("after", after).a("par", par).b("intact", intact).end();
	Word w(msg);
	w.insert(w.end(), par.begin(), par.end());
	return w;
}
static void decode(Codec &c, const Word &tx, Word rx, const Word &era, Rng &rng)
{
	Word out(rx); bool intact;
	std::string s;
	for (size_t i = 0; i < rx.size() && s.size() < 3000; ++i) s += " " + std::to_string(rx[i]);
	s += " erasures:";
	for (int x : era) s += " " + std::to_string(x);
	doing("%s decode%s", c.name, s.c_str());
	int ret = c.dec(out, era, intact, rng);
	Word e1(era);
	for (int &x : e1) ++x;
	Ev("Decode").a("tx", tx).a("rx", rx).a("era", e1).i("ret", ret).a("out", out).b("intact", intact).end();
}
/* damage e unmarked symbols and erase f, with a taste for awkward places */
static void damage(Codec &c, Word &w, Word &era, int e, int f, Rng &rng)
{
	int n = w.size();
	std::vector<int> pos;
	std::set<int> used;
	int style = rng.in(0, 4);
	int start = rng.in(0, n - 1);
	while ((int)pos.size() < std::min(e + f, n)) {
		int p = style == 0 ? (start + pos.size()) % n :
			style == 1 ? (rng.one_in(2) ? rng.in(0, std::min(n - 1, 3)) : rng.in(std::max(0, n - 4), n - 1)) :
			rng.in(0, n - 1);
		if (used.size() > 6 && style == 1) style = 2;
		if (used.insert(p).second) pos.push_back(p);
	}
	int v = rng.in(1, c.N);
	for (int i = 0; i < (int)pos.size(); ++i) {
		int delta = c.bin ? 1 : rng.one_in(3) ? v : rng.in(1, c.N);
		if (i < f) {
			era.push_back(pos[i]);
			if (rng.one_in(4)) delta = 0; /* erased, but right */
		}
		w[pos[i]] ^= delta;
	}
}
static void run_enc(Codec &c, int count, int maxlen)
{
	Rng rng(c.N * 31 + c.NR * 7 + c.FCR);
	for (int k = 0; k < count; ++k) {
		if (k % 12 == 0) begin(c);
		int n = k == 0 && c.K <= maxlen ? c.K : k == 1 ? 1 : pick_len(c, rng, maxlen);
		encode(c, message(c, n, rng), rng, true);
	}
}
/*
The division register replayed: its rows (what one symbol leaves behind) are
encodings of single symbols judged by the specification, the rest of its
behaviour is that of SyndromeModel: shift, and add the row of what falls out.
Messages are steered so that the register gets into awkward states half way.
*/
static void run_register(Codec &c, int count)
{
	if (!c.bin && c.M > 8)
		return;
	Rng rng(c.N * 47 + c.NR * 19 + c.FCR);
	int top = c.bin ? 1 : c.N, NP = c.NP;
	std::vector<Word> row(top + 1, Word(NP, 0));
	for (int v = 1; v <= top; ++v) {
		if (v % 12 == 1) begin(c);
		Word w = encode(c, Word(1, v), rng, true);
		row[v] = Word(w.begin() + 1, w.end());
	}
	Word last(top + 1, 0);
	for (int v = 1; v <= top; ++v) last[row[v][NP - 1]] = v;
	auto step = [&](Word &r, int s) {
		const Word &t = row[s ^ r[0]];
		for (int i = 0; i < NP - 1; ++i) r[i] = r[i + 1] ^ t[i];
		r[NP - 1] = t[NP - 1];
	};
	/* the input that takes the register from zero to the given state */
	auto steer = [&](Word t) {
		for (int k = 0; k < NP; ++k) {
			int fb = last[t[NP - 1]];
			for (int i = NP - 1; i > 0; --i) t[i] = t[i - 1] ^ row[fb][i - 1];
			t[0] = fb;
		}
		return t;
	};
	long budget = (vt_thorough ? 40000000 : 4000000) / c.NP;
	for (int k = 0; k < count && budget > 0; ++k) {
		int n = rng.one_in(3) ? (int)rng.in(1, c.K) : c.K;
		Word m, reg(NP, 0);
		auto put = [&](int s) { if ((int)m.size() < n) { m.push_back(s); step(reg, s); } };
		int kind = rng.in(0, 3);
		if (kind == 1) for (int i = rng.in(0, std::min(n, 40)); i > 0; --i) put(0);
		while ((int)m.size() < n) {
			for (int i = rng.in(0, kind == 3 ? n : std::min(n, 40)); i > 0; --i) put(rng.in(0, top));
			if (c.bin && rng.one_in(2)) while (m.size() % 8 && (int)m.size() < n) put(rng.in(0, 1));
			Word t(NP, 0);
			switch (rng.in(0, 4)) {
			case 0: break;
			case 1: t[rng.in(0, NP - 1)] = rng.in(1, top); break;
			case 2: { int b = rng.in(0, (NP - 1) / 8); for (int i = 8 * b; i < std::min(NP, 8 * b + 8); ++i) t[i] = rng.in(0, top); break; }
			case 3: for (int &x : t) x = rng.in(0, top); for (int i = rng.in(0, (NP - 1) / 8) * 8, j = 0; i < NP && j < 8; ++i, ++j) t[i] = 0; break;
			default: for (int &x : t) x = top; break;
			}
			Word in = steer(t);
			/* first down to zero, by what the register holds */
			if ((int)(m.size() + 2 * NP) > n && rng.one_in(2)) break;
			for (int i = 0; i < NP; ++i) { int s = reg[0]; put(s); }
			for (int s : in) put(s);
			int len = rng.in(0, 24), what = rng.one_in(3) ? top : 0;
			for (int i = 0; i < len; ++i) put(what);
		}
		while ((int)m.size() < n) put(rng.one_in(4) ? rng.in(0, top) : 0);
		budget -= n;
		Word after; bool intact;
		snprintf(vt_ctx, sizeof(vt_ctx), "%s encode, replayed", c.name);
		Word par = c.enc(m, after, intact, rng);
		++replayed;
		if (par != reg || after != m || !intact) {
			std::string s;
			for (int i = 0; i < n && i < 400; ++i) s += " " + std::to_string(m[i]);
			vt_mismatch("%s len=%d message%s: parity is not the division register", c.name, n, s.c_str());
			break;
		}
	}
}
static void run_dec(Codec &c, int count, int maxlen, bool beyond)
{
	Rng rng(c.N * 37 + c.NR * 11 + c.FCR + beyond);
	for (int k = 0; k < count; ++k) {
		if (k % 12 == 0) begin(c);
		int n = pick_len(c, rng, maxlen);
		Word tx = encode(c, message(c, n, rng), rng, k % 8 == 0);
		int len = tx.size();
		Word rx(tx), era;
		int f, e;
		if (!beyond) {
			f = rng.one_in(2) ? 0 : rng.in(0, c.NR);
			int cap = (c.NR - f) / 2;
			e = rng.one_in(3) ? rng.in(0, cap) : cap;
			damage(c, rx, era, e, std::min(f, len - e), rng);
		} else {
			f = rng.one_in(2) ? 0 : rng.in(0, c.NR);
			int cap = (c.NR - f) / 2;
			int kind = rng.in(0, 3);
			e = kind == 0 ? cap + 1 : kind == 1 ? cap + 2 : kind == 2 ? rng.in(cap + 1, len) : cap + 1;
			e = std::min(e, len - f);
			damage(c, rx, era, std::max(e, 0), std::min(f, len), rng);
			if (kind == 3 && rng.one_in(2))
				for (int &x : rx) x = rng.in(0, c.bin ? 1 : c.N);
		}
		/* keep distinct erasures no matter what */
		decode(c, tx, rx, era, rng);
	}
}
/* every pattern within capacity (small codes), against random codewords */
static std::vector<int> places;
static void patterns(Codec &c, Word &tx, Word &rx, Word &era, int from, int e, int f, Rng &rng, int len, long &budget)
{
	if (budget <= 0)
		return;
	{
		--budget;
		Word out(rx); bool intact;
		int wrong = 0;
		for (int i = 0; i < len; ++i) wrong += tx[i] != rx[i];
		Word er(era);
		for (int i = (int)er.size() - 1; i > 0; --i) std::swap(er[i], er[rng.in(0, i)]);
		snprintf(vt_ctx, sizeof(vt_ctx), "%s pattern", c.name);
		int ret = c.dec(out, er, intact, rng);
		++replayed;
		if (ret != wrong || out != tx || !intact) {
			std::string s;
			for (int i = 0; i < len; ++i) if (tx[i] != rx[i]) s += " " + std::to_string(i) + "^" + std::to_string(tx[i] ^ rx[i]);
			s += " erased:";
			for (int x : era) s += " " + std::to_string(x);
			vt_mismatch("%s len=%d: damage within capacity (%s) gave %d instead of %d%s", c.name, len, s.c_str(), ret, wrong, out != tx ? " and a different word" : "");
		}
	}
	for (int q = from; q < len; ++q) {
		int p = places[q];
		int top = c.bin ? 1 : c.N;
		if (2 * (e + 1) + f <= c.NR)
			for (int v = 1; v <= top; ++v) {
				rx[p] ^= v;
				patterns(c, tx, rx, era, q + 1, e + 1, f, rng, len, budget);
				rx[p] ^= v;
			}
		if (2 * e + f + 1 <= c.NR) {
			era.push_back(p);
			for (int v = 0; v <= top; ++v) {
				if (v > 1 && v != top && (int)era.size() > 1 && !vt_thorough) continue;
				rx[p] ^= v;
				patterns(c, tx, rx, era, q + 1, e, f + 1, rng, len, budget);
				rx[p] ^= v;
			}
			era.pop_back();
		}
	}
}
static void run_patterns(Codec &c)
{
	Rng rng(c.NR);
	for (int n : { c.K, std::max(1, c.K - 1), (c.K + 1) / 2, 1 }) {
		long budget = vt_thorough ? 30000000 : 150000;
		Word tx = encode(c, message(c, n, rng), rng, false), rx(tx), era;
		places.resize(tx.size());
		for (int i = 0; i < (int)tx.size(); ++i) { places[i] = i; std::swap(places[i], places[rng.in(0, i)]); }
		patterns(c, tx, rx, era, 0, 0, 0, rng, tx.size(), budget);
	}
}
/* the specification's syndrome tables */
struct Synd { int n, nr, m; std::vector<int> t; int of(const Word &w, int M) const { int s = 0, off = n - w.size(); for (int i = 0; i < (int)w.size(); ++i) if (w[i]) s ^= t[(off + i) * n + w[i] - 1]; return s; } };
static std::map<std::vector<int>, Synd> synd;
static void load_synd()
{
	const char *fn = getenv("GEN_rstab");
	FILE *f = fn ? fopen(fn, "r") : 0;
	if (!f) { printf("no table\n"); exit(3); }
	std::vector<int> v;
	int c, cur = -1;
	while ((c = fgetc(f)) != EOF) {
		if (c >= '0' && c <= '9') cur = (cur < 0 ? 0 : cur) * 10 + c - '0';
		else if (cur >= 0) { v.push_back(cur); cur = -1; }
	}
	fclose(f);
	size_t at = 0;
	int k = v.at(at++);
	while (k--) {
		std::vector<int> key(v.begin() + at, v.begin() + at + 4);
		at += 4;
		Synd s;
		s.n = (1 << key[0]) - 1; s.nr = key[2]; s.m = key[0];
		s.t.assign(v.begin() + at, v.begin() + at + s.n * s.n);
		at += s.n * s.n;
		synd[key] = s;
	}
}
static void judge(Codec &c, const Synd &s, Word &rx, const Word &era, Rng &rng)
{
	Word out(rx); bool intact;
	snprintf(vt_ctx, sizeof(vt_ctx), "%s any word", c.name);
	int ret = c.dec(out, era, intact, rng);
	++replayed;
	int diff = 0;
	bool range = true;
	for (size_t i = 0; i < rx.size(); ++i) { diff += rx[i] != out[i]; range &= out[i] >= 0 && out[i] <= (c.bin ? 1 : c.N); }
	bool ok = intact && range && (ret < 0 ? diff == 0 : (diff == ret && s.of(out, c.M) == 0));
	if (!ok) {
		std::string t;
		for (int x : rx) t += " " + std::to_string(x);
		t += " erased:";
		for (int x : era) t += " " + std::to_string(x);
		t += " result:";
		for (int x : out) t += " " + std::to_string(x);
		vt_mismatch("%s received%s returned %d: not a codeword at that distance", c.name, t.c_str(), ret);
	}
}
static void run_cosets(Codec &c)
{
	auto it = synd.find({c.M, c.P, c.NR, c.FCR});
	if (it == synd.end()) { printf("no syndrome table for %s\n", c.name); exit(3); }
	const Synd &s = it->second;
	Rng rng(c.NR * 5 + c.FCR);
	int top = c.bin ? 1 : c.N;
	for (int n : { c.K, std::max(1, c.K / 2), 1 }) {
		int len = n + c.NP;
		long all = 1;
		int digits = c.bin ? std::min(len, 24) : std::min(len, c.NR);
		bool full = true;
		long lim = vt_thorough ? 40000000 : 200000;
		for (int i = 0; i < digits; ++i) { all *= top + 1; if (all > lim) { full = false; all = lim; break; } }
		for (int ec = 0; ec <= (vt_thorough ? 8 : 3); ++ec) {
			Word tx = encode(c, message(c, n, rng), rng, false);
			Word era;
			int f = ec == 0 ? 0 : rng.in(1, std::min(c.NR, len));
			std::set<int> used;
			while ((int)era.size() < f) { int p = rng.in(0, len - 1); if (used.insert(p).second) era.push_back(p); }
			std::vector<int> places(len);
			for (int i = 0; i < len; ++i) places[i] = i;
			for (int i = len - 1; i > 0; --i) std::swap(places[i], places[rng.in(0, i)]);
			Word rx(len);
			for (long k = 0; k < all; ++k) {
				rx = tx;
				if (full) {
					long q = k;
					for (int i = 0; i < digits; ++i) { rx[places[i]] ^= q % (top + 1); q /= top + 1; }
				} else {
					for (int i = 0; i < len; ++i) rx[i] = rng.in(0, top);
				}
				judge(c, s, rx, era, rng);
			}
			if (!full && ec == 1) break;
		}
	}
}
static void evaluate(Codec &c, const Word &w, Rng &rng)
{
	Word out; bool intact;
	doing("%s syndromes of %d", c.name, (int)w.size());
	int ret = c.syn(w, out, intact, rng);
	Ev("Evaluate").a("w", w).a("out", out).i("ret", ret).b("intact", intact).end();
}
static void run_syn(Codec &c, int count, int maxlen)
{
	Rng rng(c.N * 43 + c.NR * 17 + c.FCR);
	bool far = maxlen < 0;
	for (int k = 0; k < count; ++k) {
		if (far || k % 12 == 0) begin(c, far ? 40 : 0);
		int n = far ? (k ? rng.in(c.K / 9, c.K) : c.K) : pick_len(c, rng, maxlen);
		Word w = encode(c, message(c, n, rng), rng, false), era;
		int kind = far && count >= 5 ? k % 5 : (int)rng.in(0, 4);
		if (kind == 1) damage(c, w, era, std::min<int>(w.size(), 1), 0, rng);
		if (kind == 2) damage(c, w, era, std::min<int>(w.size(), rng.in(2, c.NR + 2)), 0, rng);
		if (kind == 3) for (int &x : w) x = rng.in(0, c.bin ? 1 : c.N);
		if (kind == 4) { for (int &x : w) x = 0; w[rng.one_in(2) ? 0 : rng.in(0, w.size() - 1)] = c.bin ? 1 : c.N; }
		evaluate(c, w, rng);
	}
}
/* whole words of large fields, each a session of its own */
static void run_long(Codec &c, int count)
{
	Rng rng(c.N * 41 + c.NR * 13 + c.FCR + mode[0]);
	for (int k = 0; k < count * (vt_thorough ? 4 : 1); ++k) {
		int n = k % 3 == 0 ? c.K : k % 3 == 1 ? c.K - (int)rng.in(1, c.K / 3) : (int)rng.in(c.K / 9, c.K - 1);
		begin(c, 40);
		Word tx = encode(c, message(c, n, rng), rng, mode == "enc");
		if (mode == "enc")
			continue;
		int len = tx.size(), f = k % 2 ? rng.in(1, c.NR) : 0;
		bool beyond = mode == "bey";
		int e = (c.NR - f) / 2 + beyond * (rng.one_in(2) ? 1 : (int)rng.in(1, c.NR));
		e = std::min(e, len - f);
		Word rx(tx), era;
		/* both ends, where an index stops fitting a narrower type, and anywhere */
		std::vector<int> pos;
		std::set<int> used;
		int base = c.K - n, odd[] = { 0, len - 1, n - 1, n, 1, 127 - base, 128 - base, 255 - base, 256 - base, 4095 - base, 4096 - base, 32767 - base, 32768 - base, 32769 - base, len / 2 };
		while ((int)pos.size() < e + f) {
			int p = rng.one_in(2) ? odd[rng.in(0, 14)] : (int)rng.in(0, len - 1);
			if (p >= 0 && p < len && used.insert(p).second) pos.push_back(p);
			else if (used.size() > 8) { p = rng.in(0, len - 1); if (used.insert(p).second) pos.push_back(p); }
		}
		for (int i = 0; i < (int)pos.size(); ++i) {
			int delta = c.bin ? 1 : rng.in(1, c.N);
			if (i < f) {
				era.push_back(pos[i]);
				if (rng.one_in(4)) delta = 0;
			}
			rx[pos[i]] ^= delta;
		}
		decode(c, tx, rx, era, rng);
	}
}
static void one(Codec &&c, int count, int maxlen, bool small)
{
	if (mode == "syn")
		return run_syn(c, count * (vt_thorough ? 8 : 1), maxlen);
	if (mode == "enc")
		run_register(c, vt_thorough ? 60000 : 6000);
	if (maxlen < 0)
		return run_long(c, count);
	int s = vt_thorough ? 8 : 1;
	if (mode == "enc")
		run_enc(c, count * 2 * s, maxlen);
	if (mode == "dec") {
		if (small) run_patterns(c);
		run_dec(c, count * s, maxlen, false);
	}
	if (mode == "bey") {
		if (small) run_cosets(c);
		run_dec(c, count * s, maxlen, true);
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	mode = argc > 2 ? argv[2] : "enc";
	if (mode == "bey") load_synd();
	doing("constructing");
#define RSC(M, P, T, NR, FCR, COUNT, MAXLEN, SMALL) one(RsCodec<M, P, T, NR, FCR>("RS<" #NR "," #FCR "," #M "," #P "," #T ">"), COUNT, MAXLEN, SMALL)
#define ARGS(...) __VA_ARGS__
#define BCH(M, P, T, NR, FCR, MSG, LIST, COUNT, MAXLEN, SMALL) do { \
	one(BchRef<M, P, T, NR, FCR, MSG>("BCHref<" #NR "," #FCR "," #MSG "," #M "," #P "," #T ">", LIST), COUNT, MAXLEN, SMALL); \
	one(BchPacked<M, P, T, NR, FCR, MSG>("BCH<" #NR "," #FCR "," #MSG "," #M "," #P "," #T ">", LIST), COUNT, MAXLEN, SMALL); } while (0)
#if PART == 0
	{ GaloisField<2, 7, uint8_t> f;
	RSC(2, 7, uint8_t, 1, 0, 24, 9, true);
	RSC(2, 7, uint8_t, 2, 1, 24, 9, true); }
	{ GaloisField<3, 11, uint8_t> f;
	RSC(3, 11, uint8_t, 2, 0, 36, 9, true);
	RSC(3, 11, uint8_t, 2, 1, 36, 9, true);
	RSC(3, 11, uint8_t, 4, 2, 36, 9, true);
	RSC(3, 11, uint8_t, 5, 0, 36, 9, true);
	RSC(3, 11, uint8_t, 6, 1, 36, 9, true); }
	{ GaloisField<3, 13, uint16_t> f;
	RSC(3, 13, uint16_t, 3, 1, 36, 9, true); }
	{ GaloisField<4, 19, uint8_t> f;
	RSC(4, 19, uint8_t, 2, 1, 36, 99, true);
	RSC(4, 19, uint8_t, 3, 0, 36, 99, true);
	RSC(4, 19, uint8_t, 5, 3, 36, 99, true);
	RSC(4, 19, uint8_t, 6, 0, 36, 99, true); }
	{ GaloisField<4, 25, uint16_t> f;
	RSC(4, 25, uint16_t, 4, 1, 36, 99, true); }
	{ GaloisField<5, 37, uint8_t> f;
	RSC(5, 37, uint8_t, 4, 1, 36, 99, true);
	RSC(5, 37, uint8_t, 3, 0, 36, 99, true); }
	{ GaloisField<5, 61, uint32_t> f;
	RSC(5, 61, uint32_t, 5, 2, 36, 99, true); }
#elif PART == 1
	{ GaloisField<6, 67, uint8_t> f;
	RSC(6, 67, uint8_t, 7, 0, 24, 99, false);
	RSC(6, 67, uint8_t, 10, 5, 24, 99, false); }
	{ GaloisField<7, 143, uint8_t> f;
	RSC(7, 143, uint8_t, 4, 1, 24, 999, false);
	RSC(7, 143, uint8_t, 16, 0, 24, 999, false); }
	{ GaloisField<8, 285, uint8_t> f;
	RSC(8, 285, uint8_t, 16, 0, 16, 999, false);
	RSC(8, 285, uint8_t, 32, 1, 10, 999, false);
	RSC(8, 285, uint8_t, 20, 112, 10, 999, false);
	RSC(8, 285, uint8_t, 64, 2, 5, 999, false);
	RSC(8, 285, uint8_t, 3, 254, 16, 999, false); }
	{ GaloisField<8, 299, uint8_t> f;
	RSC(8, 299, uint8_t, 4, 1, 24, 999, false);
	RSC(8, 299, uint8_t, 5, 0, 24, 999, false); }
	{ GaloisField<16, 69643, uint16_t> f;
	RSC(16, 69643, uint16_t, 8, 1, 8, 60, false);
	RSC(16, 69643, uint16_t, 64, 1, 2, 40, false);
	RSC(16, 69643, uint16_t, 5, 0, 8, 60, false); }
	{ GaloisField<16, 65581, uint32_t> f;
	RSC(16, 65581, uint32_t, 6, 3, 8, 60, false); }
#elif PART == 2
	{ GaloisField<3, 11, uint8_t> f;
	BCH(3, 11, uint8_t, 2, 1, 4, ARGS({11}), 24, 99, true);  }
	{ GaloisField<4, 19, uint8_t> f;
	BCH(4, 19, uint8_t, 2, 1, 11, ARGS({19}), 24, 99, true);
	BCH(4, 19, uint8_t, 4, 1, 7, ARGS({19, 31}), 36, 99, true);
	BCH(4, 19, uint8_t, 6, 1, 5, ARGS({19, 31, 7}), 36, 99, true);
	BCH(4, 19, uint8_t, 5, 0, 6, ARGS({3, 19, 31}), 36, 99, true);
	BCH(4, 19, uint8_t, 3, 0, 10, ARGS({3, 19}), 24, 99, true);
	BCH(4, 19, uint8_t, 2, 3, 7, ARGS({31, 19}), 24, 99, true);
	BCH(4, 19, uint8_t, 3, 2, 7, ARGS({19, 31}), 24, 99, true); }
	{ GaloisField<4, 25, uint16_t> f;
	BCH(4, 25, uint16_t, 4, 1, 7, ARGS({25, 31}), 24, 99, true); }
	{ GaloisField<5, 37, uint8_t> f;
	BCH(5, 37, uint8_t, 4, 1, 21, ARGS({37, 61}), 24, 99, true);
	BCH(5, 37, uint8_t, 6, 1, 16, ARGS({37, 61, 55}), 24, 99, true);
	BCH(5, 37, uint8_t, 5, 0, 20, ARGS({3, 37, 61}), 24, 99, true);
	BCH(5, 37, uint8_t, 4, 3, 16, ARGS({61, 37, 55}), 24, 99, true); }
	{ GaloisField<5, 61, uint8_t> f;
	BCH(5, 61, uint8_t, 4, 1, 21, ARGS({61, 55}), 24, 99, true); }
#elif PART == 4
	{ GaloisField<9, 529, uint16_t> f;
	RSC(9, 529, uint16_t, 12, 1, 9, -1, false); }
	{ GaloisField<10, 1033, uint16_t> f;
	RSC(10, 1033, uint16_t, 14, 0, 9, -1, false);
	RSC(10, 1033, uint16_t, 30, 1, 6, -1, false); }
	{ GaloisField<11, 2053, uint16_t> f;
	RSC(11, 2053, uint16_t, 7, 500, 9, -1, false); }
	{ GaloisField<12, 4179, uint16_t> f;
	RSC(12, 4179, uint16_t, 40, 1, 6, -1, false); }
#elif PART == 5
	{ GaloisField<13, 8219, uint16_t> f;
	RSC(13, 8219, uint16_t, 9, 3, 3, -1, false); }
	{ GaloisField<14, 16427, uint16_t> f;
	RSC(14, 16427, uint16_t, 6, 0, 3, -1, false); }
	{ GaloisField<15, 32771, uint16_t> f;
	RSC(15, 32771, uint16_t, 8, 1, 3, -1, false); }
	{ GaloisField<16, 69643, uint16_t> f;
	RSC(16, 69643, uint16_t, 8, 1, 3, -1, false);
	RSC(16, 69643, uint16_t, 3, 0, 2, -1, false); }
	{ GaloisField<16, 65581, uint32_t> f;
	RSC(16, 65581, uint32_t, 6, 65530, 2, -1, false); }
#elif PART == 6
	{ GaloisField<14, 16427, uint16_t> f;
	BCH(14, 16427, uint16_t, 24, 1, 16215, ARGS({
			0b100000000101011, 0b100100101000001, 0b100011001000111,
			0b101010110010001, 0b110101101010101, 0b110001110001001,
			0b110110011100101, 0b100111100100001, 0b100011000001111,
			0b101101001001001, 0b101100000010001, 0b110010111101111}), 3, -1, false); }
	{ GaloisField<15, 32813, uint16_t> f;
	BCH(15, 32813, uint16_t, 24, 1, 32587, ARGS({
			0b1000000000101101, 0b1000110010010011, 0b1011010101010101,
			0b1000110101101101, 0b1001010011010111, 0b1011000011010001,
			0b1101100010110101, 0b1100101101010101, 0b1011101010110111,
			0b1011110010011111, 0b1000101000010111, 0b1110110100010101}), 2, -1, false); }
#elif PART == 7
	{ GaloisField<16, 65581, uint16_t> f;
	BCH(16, 65581, uint16_t, 24, 1, 65343, ARGS({
			0b10000000000101101, 0b10000000101110011, 0b10000111110111101,
			0b10101101001010101, 0b10001111100101111, 0b11111011110110101,
			0b11010111101100101, 0b10111001101100111, 0b10000111010100001,
			0b10111010110100111, 0b10011101000101101, 0b10001101011100011}), 2, -1, false); }
#elif PART == 8
	{ GaloisField<9, 529, uint16_t> f;
	RSC(9, 529, uint16_t, 256, 1, 6, -1, false); }
	{ GaloisField<10, 1033, uint16_t> f;
	RSC(10, 1033, uint16_t, 300, 0, 5, -1, false); }
#elif PART == 9
	{ GaloisField<10, 1033, uint16_t> f;
	BCH(10, 1033, uint16_t, 256, 1, 123, ARGS({
			1033, 1039, 1293, 2041, 1199, 1077, 1135, 1451, 1869, 1531, 2027, 1051, 1315, 1915, 1329, 1571,
			61, 1555, 1891, 1095, 1509, 1305, 1585, 1663, 1877, 1383, 1423, 1835, 1617, 1849, 2035, 1709,
			1473, 1747, 1863, 1311, 1291, 1255, 1939, 1479, 1225, 1239, 1717, 2047, 1125, 55, 1069, 1917,
			1927, 1657, 1063, 1107, 1527, 1177, 1627, 1703, 1809, 1729, 1279, 1261, 1557, 1825, 1193, 1387,
			1783, 41, 1267, 1741, 1759, 1933, 1673, 2011, 1807, 1669, 1123, 1969, 1163, 1845, 1435, 1441,
			1465, 1881, 1573, 59, 1615, 1989, 1367, 1221, 1603, 1789, 1377, 1921}), 5, -1, false);
	BCH(10, 1033, uint16_t, 300, 0, 122, ARGS({
			3, 1033, 1039, 1293, 2041, 1199, 1077, 1135, 1451, 1869, 1531, 2027, 1051, 1315, 1915, 1329,
			1571, 61, 1555, 1891, 1095, 1509, 1305, 1585, 1663, 1877, 1383, 1423, 1835, 1617, 1849, 2035,
			1709, 1473, 1747, 1863, 1311, 1291, 1255, 1939, 1479, 1225, 1239, 1717, 2047, 1125, 55, 1069,
			1917, 1927, 1657, 1063, 1107, 1527, 1177, 1627, 1703, 1809, 1729, 1279, 1261, 1557, 1825, 1193,
			1387, 1783, 41, 1267, 1741, 1759, 1933, 1673, 2011, 1807, 1669, 1123, 1969, 1163, 1845, 1435,
			1441, 1465, 1881, 1573, 59, 1615, 1989, 1367, 1221, 1603, 1789, 1377, 1921}), 5, -1, false); }
#else
	{ GaloisField<5, 37, uint8_t> f;
	BCH(5, 37, uint8_t, 10, 1, 11, ARGS({37, 61, 55, 47}), 36, 99, false); }
	{ GaloisField<6, 67, uint8_t> f;
	BCH(6, 67, uint8_t, 6, 1, 45, ARGS({67, 87, 103}), 24, 99, false); }
	{ GaloisField<6, 109, uint8_t> f;
	BCH(6, 109, uint8_t, 4, 1, 51, ARGS({109, 87}), 24, 99, false);
	BCH(6, 109, uint8_t, 7, 14, 30, ARGS({73, 117, 109, 97, 13, 103}), 24, 99, false); }
	{ GaloisField<7, 143, uint8_t> f;
	BCH(7, 143, uint8_t, 8, 1, 99, ARGS({143, 191, 239, 229}), 24, 999, false); }
	{ GaloisField<7, 137, uint16_t> f;
	BCH(7, 137, uint16_t, 7, 0, 105, ARGS({3, 137, 143, 157}), 24, 999, false); }
	{ GaloisField<8, 285, uint8_t> f;
	BCH(8, 285, uint8_t, 10, 1, 215, ARGS({285, 375, 499, 361, 445}), 16, 999, false);
	BCH(8, 285, uint8_t, 36, 1, 131, ARGS({285, 375, 499, 361, 445, 487, 299, 471, 19, 357, 395, 355, 283, 319, 397, 301}), 8, 999, false); }
	{ GaloisField<8, 299, uint8_t> f;
	BCH(8, 299, uint8_t, 4, 1, 239, ARGS({299, 505}), 24, 999, false);
	BCH(8, 299, uint8_t, 9, 0, 222, ARGS({3, 299, 505, 499, 501}), 16, 999, false); }
#endif
	printf("REPLAYED %ld\n", replayed);
	return vt_done();
}
