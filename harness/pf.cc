#include "trace.hh"
#include "prime_field.hh"
using namespace CODE;
typedef unsigned __int128 u128;
static std::string big(u128 v)
{
	std::string r = "[";
	bool first = true;
	do {
		if (!first) r += ",";
		first = false;
		r += std::to_string(int(v & 32767));
		v >>= 15;
	} while (v);
	return r + "]";
}
static Ev &put(Ev &e, const char *k, u128 v) { e.s += std::string(",\"") + k + "\":" + big(v); return e; }
template <typename T, T P>
static void rows(const char *name)
{
	typedef PrimeField<T, P> F;
	Ev b("Begin"); b.str("t", name); put(b, "p", P); b.end();
	std::vector<int64_t> r;
	auto row = [&](const char *op, int64_t x) { Ev("Row").i("P", P).str("op", op).i("x", x).a("r", r).end(); };
	for (T x = 0; x < P; ++x) {
		doing("%s rows x=%d", name, (int)x);
		r.clear(); for (T y = 0; y < P; ++y) r.push_back((F(x) + F(y)).v); row("add", x);
		r.clear(); for (T y = 0; y < P; ++y) r.push_back((F(x) - F(y)).v); row("sub", x);
		r.clear(); for (T y = 0; y < P; ++y) r.push_back((F(x) * F(y)).v); row("mul", x);
		r.clear(); for (T y = 0; y < P; ++y) r.push_back(y ? (F(x) / F(y)).v : 0); row("div", x);
		r.clear(); for (T y = 0; y < P; ++y) r.push_back(pow(F(x), y).v); row("pow", x);
		r.clear(); for (T y = 0; y < P; ++y) { F t(x); t += F(y); r.push_back(t()); } row("add", x);
		r.clear(); for (T y = 0; y < P; ++y) { F t(x); t -= F(y); r.push_back(t()); } row("sub", x);
		r.clear(); for (T y = 0; y < P; ++y) { F t(x); t *= F(y); r.push_back(t()); } row("mul", x);
		r.clear(); for (T y = 0; y < P; ++y) { F t(x); if (y) t /= F(y); r.push_back(t()); } row("div", x);
	}
}
template <typename T, T P>
static void ops(const char *name, int count)
{
	typedef PrimeField<T, P> F;
	Rng rng(P);
	const u128 p = P;
	for (int k = 0; k < count; ++k) {
		if (k % 50 == 0) { Ev b("Begin"); b.str("t", name); put(b, "p", p); b.end(); }
		auto pick = [&]() -> T {
			switch (rng.in(0, 7)) {
			case 0: return 0;
			case 1: return 1;
			case 2: return P - 1;
			case 3: return P - 2;
			case 4: return (P + 1) / 2;
			default: return rng.u64() % P;
			}
		};
		T x = pick(), y = pick(), ny = y ? y : 1;
		doing("%s ops x=%" PRIu64 " y=%" PRIu64, name, (uint64_t)x, (uint64_t)y);
		auto op = [&](const char *o, T a, T b, u128 q, T r) { Ev e("Op"); e.str("op", o); put(e, "x", a); put(e, "y", b); put(e, "q", q); put(e, "r", r); e.end(); };
		auto quot = [&](u128 v, T r) { return v >= r ? (v - r) / p : (r - v) / p; };
		T r;
		switch (k % 14) {
		case 0: r = (F(x) + F(y)).v; op("add", x, y, quot((u128)x + y, r), r); break;
		case 1: r = (F(x) - F(y)).v; op("sub", x, y, quot((u128)r + y, x), r); break;
		case 2: r = (-F(x)).v; op("neg", x, 0, ((u128)r + x) / p, r); break;
		case 3: r = (F(x) * F(y)).v; op("mul", x, y, quot((u128)x * y, r), r); break;
		case 4: r = rcp(F(ny)).v; op("rcp", ny, 0, quot((u128)r * ny, 1), r); break;
		case 5: r = (F(x) / F(ny)).v; op("div", x, ny, quot((u128)r * ny, x), r); break;
		case 6: { T u = rng.one_in(2) ? T(rng.u64()) : T(~T(0)); r = reduce(F(u)).v; op("reduce", u, 0, quot(u, r), r); } break;
		case 7: r = add(F(x), F(y)).v; op("ladd", x, y, quot((u128)x + y, r), r); break;
		case 8: r = sub(F(x), F(y)).v; op("lsub", x, y, quot((u128)r + y, x), r); break;
		case 9: r = neg(F(x)).v; op("lneg", x, 0, ((u128)r + x) / p, r); break;
		case 10: r = mul(F(x), F(y)).v; op("lmul", x, y, quot((u128)x * y, r), r); break;
		case 11: r = div(F(x), F(ny)).v; op("ldiv", x, ny, quot((u128)r * ny, x), r); break;
		case 12: { Ev e("Eq"); put(e, "x", x); T z = rng.one_in(2) ? x : y; put(e, "y", z); e.b("eq", F(x) == F(z)).b("ne", F(x) != F(z)).end(); } break;
		case 13: {
			T m = rng.one_in(4) ? P - 1 : rng.one_in(3) ? T(rng.in(0, 40)) : pick();
			int bits = 0;
			while (bits < int(8 * sizeof(T)) && (m >> bits)) ++bits;
			Ev e("Pow"); put(e, "x", x);
			std::string mm, rr, qq;
			T prev = 1;
			for (int b = bits - 1; b >= 0; --b) {
				T head = m >> b;
				T v = pow(F(x), head).v;
				/* quotient of prev^2 or prev^2*x by the prime, long division */
				u128 sq = (u128)prev * prev, q;
				if (head & 1) {
					/* (hi*p + lo)*x = hi*x*p + lo*x */
					u128 hi = sq / p, lo = sq % p;
					q = hi * x + (lo * x) / p;
				} else q = sq / p;
				mm += (mm.empty() ? "" : ",") + std::to_string(int(head & 1));
				rr += (rr.empty() ? "" : ",") + big(v);
				qq += (qq.empty() ? "" : ",") + big(q);
				prev = v;
			}
			e.s += ",\"m\":[" + mm + "],\"r\":[" + rr + "],\"q\":[" + qq + "]";
			e.end();
		} break;
		}
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	int s = vt_thorough ? 20 : 1;
#define ROWS(T, P) rows<T, P>("PF<" #T "," #P ">")
#define OPS(T, P, N) ops<T, P>("PF<" #T "," #P ">", N * s)
	ROWS(uint32_t, 2); ROWS(uint32_t, 3); ROWS(uint32_t, 5); ROWS(uint32_t, 7); ROWS(uint32_t, 13); ROWS(uint64_t, 31); ROWS(int, 61);
	if (vt_thorough) ROWS(uint32_t, 257);
	OPS(uint32_t, 257, 700); OPS(uint32_t, 65521, 700); OPS(uint64_t, 65537, 700); OPS(uint32_t, 32771, 280);
	OPS(uint64_t, 2147483647, 700); OPS(uint64_t, 4294967291, 700); OPS(uint64_t, 998244353, 280);
	OPS(uint32_t, 251, 280);
	return vt_done();
}
