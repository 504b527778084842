#include "trace.hh"
#include "simd.hh"
#include "simd_sort.hh"
using namespace CODE;
struct Item
{
	int key, id;
	bool operator<(const Item &o) const { return key < o.key; }
};
static bool operator==(const Item &a, const Item &b) { return a.key == b.key && a.id == b.id; }
static bool operator!=(const Item &a, const Item &b) { return !(a == b); }
static Rng *rng;
typedef std::vector<int> V;
static V keys(int n)
{
	V k(n);
	int kind = rng->in(0, 8), m = rng->in(1, std::max(2, n));
	for (int i = 0; i < n; ++i)
		k[i] = kind == 0 ? i : kind == 1 ? -i : kind == 2 ? 0 : kind == 3 ? int(rng->in(0, 1)) : kind == 4 ? int(rng->in(-3, 3)) :
			kind == 5 ? (i * 7) % m : kind == 6 ? std::min(i, n - i) : kind == 7 ? (i / std::max(1, m / 4)) % 2 : int(rng->in(-1000000, 1000000));
	return k;
}
template <typename F>
static V ids(const V &k, bool &intact, F f)
{
	int n = k.size();
	Guarded<Item> g(n, Item{-77, -77});
	for (int i = 0; i < n; ++i) g[i] = Item{k[i], i + 1};
	f(g.data(), n);
	intact = g.intact();
	V out;
	for (int i = 0; i < n; ++i) out.push_back(g[i].id);
	return out;
}
static void event(const V &k, const V &out, bool intact) { Ev("Sort").a("keys", k).a("out", out).b("intact", intact).end(); }
template <typename INDEX, typename TYPE>
static void order(const V &k)
{
	int n = k.size();
	Guarded<INDEX> p(n);
	Guarded<TYPE> a(n);
	for (int i = 0; i < n; ++i) a[i] = k[i];
	insertion_sort(p.data(), a.data(), n);
	V o;
	for (int i = 0; i < n; ++i) o.push_back(p[i] + 1);
	Ev("Order").a("keys", k).a("out", o).p("sorted", a.data(), n).b("intact", p.intact() && a.intact()).end();
}
template <int MAXN, int M>
static void merge(int count)
{
	Ev("Begin").i("max", MAXN).end();
	auto *ms = opaque(new MergeSort<Item, MAXN, M>());
	auto *mi = opaque(new MergeSort<int, MAXN, M>());
	auto less = [](const Item &a, const Item &b) { return a.key < b.key; };
	for (int k = 0; k < count; ++k) {
		int n = k == 0 ? MAXN : k == 1 ? 0 : k == 2 ? 1 : k == 3 ? std::min(M, MAXN) : k == 4 ? std::min(M + 1, MAXN) : k == 5 ? std::min(2 * M, MAXN) : k == 6 ? std::min(2 * M + 1, MAXN) : k == 7 ? MAXN - 1 : rng->in(0, MAXN);
		V ks = keys(n);
		bool intact;
		doing("MergeSort<%d,%d> n=%d", MAXN, M, n);
		bool own = rng->one_in(2);
		V out = ids(ks, intact, [&](Item *a, int n) { if (own) (*ms)(a, n); else (*ms)(a, n, less); });
		event(ks, out, intact);
		if (k % 3 == 1) {
			V neg(ks);
			for (int &x : neg) x = -x;
			out = ids(ks, intact, [&](Item *a, int n) { (*ms)(a, n, [](const Item &a, const Item &b) { return a.key > b.key; }); });
			event(neg, out, intact);
		}
		if (k % 8 == 3 && n < 60) {
			Guarded<int> g(n);
			for (int i = 0; i < n; ++i) g[i] = ks[i];
			(*mi)(g.data(), n);
			Ev("Values").a("keys", ks).p("out", g.data(), n).b("intact", g.intact()).end();
		}
	}
	delete ms;
	delete mi;
}
/* indices that fit no 16 bits */
static V many(int n, int kind)
{
	V k(n);
	for (int i = 0; i < n; ++i)
		k[i] = kind == 0 ? int(rng->in(-1000000, 1000000)) : kind == 1 ? int(rng->in(0, 9)) : kind == 2 ? n - i : kind == 3 ? i / 2 + (rng->one_in(1000) ? rng->in(-300, 300) : 0) : i % 2;
	return k;
}
template <int M>
static void large(int n, int kind)
{
	Ev("Begin").i("max", n).i("w", n / 30).end();
	auto *ms = opaque(new MergeSort<Item, 70001, M>());
	V ks = many(n, kind);
	bool intact, own = rng->one_in(2);
	doing("MergeSort<70001,%d> n=%d", M, n);
	V out = ids(ks, intact, [&](Item *a, int n) { if (own) (*ms)(a, n); else (*ms)(a, n, [](const Item &a, const Item &b) { return a.key < b.key; }); });
	event(ks, out, intact);
	delete ms;
}
/* every array of n elements over m keys */
template <int M>
static void all(int n, int m)
{
	long total = 1;
	for (int i = 0; i < n; ++i) total *= m;
	auto *ms = opaque(new MergeSort<Item, 10, M>());
	std::string in, out;
	int cnt = 0;
	bool intact = true;
	Ev("Begin").i("max", n).end();
	auto flush = [&](const char *) {
		Ev e("Sorts");
		e.s += ",\"keys\":[" + in + "],\"out\":[" + out + "]";
		e.b("intact", intact).end();
		in = out = ""; cnt = 0; intact = true;
	};
	for (long q = 0; q < total; ++q) {
		V k(n);
		long t = q;
		for (int i = 0; i < n; ++i) { k[i] = t % m; t /= m; }
		bool it;
		doing("all arrays n=%d m=%d M=%d", n, m, M);
		V o = M == 0 ? ids(k, it, [&](Item *a, int n) { insertion_sort(a, n); }) : ids(k, it, [&](Item *a, int n) { (*ms)(a, n); });
		intact &= it;
		auto list = [](const V &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; };
		in += (cnt ? "," : "") + list(k);
		out += (cnt ? "," : "") + list(o);
		if (++cnt == 81) flush("");
	}
	if (cnt) flush("");
	delete ms;
}
template <typename T, int W>
static void vec(bool boundary)
{
	typedef SIMD<T, W> S;
	Ev("Begin").i("max", W).end();
	for (int k = 0; k < (vt_thorough ? 100 : 10); ++k) {
		S a;
		V ks(W);
		for (int i = 0; i < W; ++i) {
			int v = k == 0 ? i % 128 : k == 1 ? (W - i) % 128 : k == 2 ? 5 : k % 2 ? int(rng->in(0, 3)) : int(rng->in(0, 120));
			if (std::numeric_limits<T>::is_signed) v -= k >= 3 ? 60 : 0;
			if (boundary && rng->one_in(5)) v = rng->one_in(2) ? (std::numeric_limits<T>::is_signed ? -128 : 0) : 127;
			a.v[i] = v; ks[i] = v;
		}
		/* the same order with the whole range of the type */
		const T step = sizeof(T) == 1 || k % 3 != 2 ? T(1) : T(std::numeric_limits<T>::max() / T(150));
		for (int i = 0; i < W; ++i) a.v[i] = T(ks[i]) * step;
		doing("vsort/vorder of %d lanes", W);
		auto p = vorder(a);
		S b = vsort(a);
		V o;
		for (int i = 0; i < W; ++i) o.push_back(int(p.v[i]) + 1);
		bool same = true;
		for (int i = 0; i < W; ++i) same &= a.v[i] == T(T(ks[i]) * step), b.v[i] = std::round(double(b.v[i] / step));
		Ev("Order").a("keys", ks).a("out", o).p("sorted", b.v, W).b("intact", same).end();
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng r(9);
	rng = &r;
	int s = vt_thorough ? 20 : 1;
	if (vt_flavour == "avx2") {
		int n = 6, m = 3;
		all<0>(n, m); all<1>(n, m); all<2>(n, m); all<3>(n, m); all<4>(n, m);
		all<1>(4, 4); all<2>(4, 4); all<0>(4, 4); all<2>(3, 3); all<1>(2, 2); all<1>(1, 1); all<2>(5, 3); all<1>(5, 3); all<3>(5, 3);
		if (vt_thorough) { all<1>(8, 3); all<2>(8, 3); all<3>(8, 3); }
		merge<1, 1>(12); merge<5, 1>(30 * s); merge<16, 2>(40 * s); merge<33, 4>(60 * s); merge<40, 3>(60 * s); merge<100, 32>(60 * s); merge<65, 32>(40 * s); merge<128, 8>(40 * s);
		merge<300, 32>(30 * s); merge<1000, 32>(8 * s); merge<257, 1>(12 * s); merge<64, 64>(20 * s); merge<50, 64>(20 * s); merge<97, 5>(30 * s);
		Ev("Begin").i("max", 0).end();
		auto less = [](const Item &a, const Item &b) { return a.key < b.key; };
		auto more = [](const Item &a, const Item &b) { return a.key > b.key; };
		for (int k = 0; k < 150 * s; ++k) {
			int n = k < 4 ? k : rng->in(0, 50);
			V ks = keys(n);
			bool intact;
			doing("insertion_sort n=%d", n);
			V out = ids(ks, intact, [&](Item *a, int n) { insertion_sort(a, n); });
			event(ks, out, intact);
			out = ids(ks, intact, [&](Item *a, int n) { insertion_sort(a, n, less); });
			event(ks, out, intact);
			V neg(ks);
			for (int &x : neg) x = -x;
			out = ids(ks, intact, [&](Item *a, int n) { insertion_sort(a, n, more); });
			event(neg, out, intact);
			order<int, int>(ks);
			{ V some(ks); for (int &x : some) x %= 1000; order<uint8_t, float>(some); }
		}
	}
	if (vt_flavour == "avx2") for (int n : { 300, 700, 2000 }) { Ev("Begin").i("max", 0).end(); V ks = keys(n); order<short, int>(ks); order<uint16_t, double>(ks); }
	if (vt_flavour == "avx2") {
		large<32>(70001, 0); large<1>(65537, 1); large<64>(40000, 2); large<32>(33000, 4); large<40000>(70001, 3);
		if (vt_thorough) for (int kind = 0; kind < 5; ++kind) { large<32>(rng->in(32768, 70001), kind); large<5>(rng->in(65536, 70001), kind); }
		for (int kind : { 3, 4 }) {
			Ev("Begin").i("max", 0).i("w", 2000).end();
			V ks = many(kind == 3 ? 70000 : 33000, kind);
			bool intact;
			V out = ids(ks, intact, [&](Item *a, int n) { insertion_sort(a, n); });
			event(ks, out, intact);
			order<int, int>(ks);
		}
	}
	vec<int8_t, 128>(true); vec<uint8_t, 256>(true); vec<int16_t, 32>(true); vec<uint32_t, 8>(true); vec<uint64_t, 2>(true);
	vec<int8_t, 16>(true); vec<int8_t, 32>(true); vec<uint8_t, 16>(true); vec<uint8_t, 32>(true); vec<int16_t, 8>(true); vec<int16_t, 16>(true);
	vec<uint16_t, 8>(true); vec<int32_t, 4>(true); vec<int32_t, 8>(true); vec<int64_t, 4>(true); vec<float, 8>(true); vec<double, 4>(true); vec<float, 4>(true);
	vec<int8_t, 64>(true); vec<int, 16>(true); vec<float, 16>(true); vec<int8_t, 1>(true); vec<int, 2>(true);
	return vt_done();
}
