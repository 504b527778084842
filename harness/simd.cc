#include "trace.hh"
#include "simd.hh"
#include <fstream>
static Rng *rng;
static std::vector<int> table;
static long replayed;
template <typename T> struct Tn;
#define NAME(T, N, B) template <> struct Tn<T> { static const char *s() { return N; } static const int bits = B; };
NAME(int8_t, "s8", 8) NAME(int16_t, "s16", 16) NAME(int32_t, "s32", 32) NAME(int64_t, "s64", 64)
NAME(uint8_t, "u8", 8) NAME(uint16_t, "u16", 16) NAME(uint32_t, "u32", 32) NAME(uint64_t, "u64", 64)
NAME(float, "f32", 32) NAME(double, "f64", 64)
template <typename S> using U = typename S::uint_type;
template <typename S>
static std::vector<uint64_t> bits(const S &s)
{
	std::vector<uint64_t> r;
	for (int i = 0; i < S::SIZE; ++i) r.push_back(s.u[i]);
	return r;
}
/* ---- tables ---- */
template <typename S, typename F>
static void replay1(const char *op, int off, F f)
{
	typedef typename S::value_type T;
	const int n = 1 << Tn<T>::bits, W = S::SIZE;
	for (int rot = 0; rot < W; ++rot) {
		if (n > 256 && !vt_thorough && rot % 3 != 1 && rot != 0)
			continue;
		for (int p = 0; p < n; p += W) {
			S a;
			for (int i = 0; i < W; ++i)
				a.u[i] = U<S>((p + i + rot) % n);
			doing("%s of %d lanes of %s", op, W, Tn<T>::s());
			auto r = f(a);
			for (int i = 0; i < W; ++i, ++replayed)
				if (r.u[i] != U<S>(table[off + (p + i + rot) % n]))
					vt_mismatch("%s %s width %d lane %d: operand %d gives %d, specified %d", op, Tn<T>::s(), W, i, (p + i + rot) % n, int(r.u[i]), table[off + (p + i + rot) % n]);
		}
	}
}
template <typename S, typename F>
static void replay2(const char *op, int off, F f)
{
	typedef typename S::value_type T;
	const int n = 65536, W = S::SIZE;
	for (int rot = 0; rot < W; ++rot) {
		for (int p = 0; p < n; p += W) {
			S a, b;
			for (int i = 0; i < W; ++i) {
				int q = (p + i + rot) % n;
				a.u[i] = U<S>(q / 256);
				b.u[i] = U<S>(q % 256);
			}
			doing("%s of %d lanes of %s", op, W, Tn<T>::s());
			auto r = f(a, b);
			for (int i = 0; i < W; ++i, ++replayed) {
				int q = (p + i + rot) % n;
				if (r.u[i] != U<S>(table[off + q]))
					vt_mismatch("%s %s width %d lane %d: operands %d, %d give %d, specified %d", op, Tn<T>::s(), W, i, q / 256, q % 256, int(r.u[i]), table[off + q]);
			}
		}
	}
}
template <int W>
static void replay8()
{
	typedef SIMD<int8_t, W> S;
	typedef SIMD<uint8_t, W> V;
	int o = 0;
	const int B = 256, P = 65536;
#define R1(S, op) replay1<S>(#op, o, [](S a) { return v##op(a); });
#define R2(S, op) replay2<S>(#op, o, [](S a, S b) { return v##op(a, b); }); o += P;
	R1(S, neg) o += B; R1(S, abs) o += B; R1(S, qabs) o += B; R1(S, signum) o += B; R1(S, cgtz) o += B;
	R1(S, ceqz) o += B; R1(S, cltz) o += B; R1(S, clez) o += B; R1(V, not) o += B;
	o += 9 * P;
	R2(S, cgt) R2(S, ceq) R2(S, min) R2(S, max) R2(S, add) R2(S, sub) R2(S, mul) R2(S, sign) R2(S, qadd) R2(S, qsub)
	R2(V, orr) R2(V, and) R2(V, eor) R2(V, bic) R2(V, cgt) R2(V, qsub)
	if (o != int(table.size())) { printf("table of %d, expected %d\n", int(table.size()), o); exit(3); }
}
template <int W>
static void replay16()
{
	typedef SIMD<int16_t, W> S;
	typedef SIMD<uint16_t, W> V;
	const int P = 65536;
	int o = 9 * 256;
	R1(S, neg) o += P; R1(S, abs) o += P; R1(S, qabs) o += P; R1(S, signum) o += P; R1(S, cgtz) o += P;
	R1(S, ceqz) o += P; R1(S, cltz) o += P; R1(S, clez) o += P; R1(V, not) o += P;
}
/* ---- events ---- */
template <typename T>
static std::vector<T> special()
{
	if constexpr (std::is_floating_point<T>::value) {
		T m = std::numeric_limits<T>::max(), s = std::numeric_limits<T>::min(), e = std::numeric_limits<T>::epsilon();
		return { T(0), T(-0.), T(1), T(-1), T(.5), T(-.5), m, -m, s, -s, T(1) + e, -T(1) - e, T(3), T(-3), T(2), T(-2), T(2.5), T(-1000) };
	} else {
		T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
		std::vector<T> r = { T(0), T(1), T(-1), T(2), T(-2), lo, T(lo + 1), hi, T(hi - 1), T(hi / 2), T(hi / 2 + 1), T(lo / 2), T(100), T(-100) };
		if (sizeof(T) == 8)
			for (uint64_t x : { 0x80000000ull, 0x7fffffffull, 0xffffffffull, 0x100000000ull, 0xffffffff00000000ull, 0xffffffff7fffffffull, 0x7fffffff00000000ull })
				r.push_back(T(x));
		return r;
	}
}
template <typename T>
static T draw(int kind)
{
	static std::vector<T> sp = special<T>();
	if (kind == 0 || rng->one_in(4))
		return sp[rng->in(0, sp.size() - 1)];
	if constexpr (std::is_floating_point<T>::value)
		return T(rng->in(-1000000, 1000000)) * (rng->one_in(2) ? T(1) : T(1) / T(1024));
	else
		return kind == 1 ? T(rng->u64()) : kind == 2 ? T(rng->in(-20, 20)) : T(T(1) << rng->in(0, 8 * sizeof(T) - 2)) * T(rng->one_in(2) ? 1 : -1);
}
template <typename S>
static S vec(int kind)
{
	S s;
	for (int i = 0; i < S::SIZE; ++i) s.v[i] = draw<typename S::value_type>(kind);
	return s;
}
/* lanes for which the operation stays in range (32 and 64 bit) */
template <typename T>
static bool fits(int op, T a, T b)
{
	T r;
	if (sizeof(T) < 4) return true;
	return op == 0 ? !__builtin_add_overflow(a, b, &r) : op == 1 ? !__builtin_sub_overflow(a, b, &r) : !__builtin_mul_overflow(a, b, &r);
}
template <typename S, typename F>
static void un(const char *op, const S &a, F f)
{
	doing("%s of %d lanes of %s", op, S::SIZE, Tn<typename S::value_type>::s());
	auto r = f(a);
	const int b = Tn<typename S::value_type>::bits;
	Ev("Un").str("op", op).ws("a", bits(a), b).ws("r", bits(r), b).end();
}
template <typename S, typename F>
static void bin(const char *op, const S &a, const S &c, F f)
{
	doing("%s of %d lanes of %s", op, S::SIZE, Tn<typename S::value_type>::s());
	auto r = f(a, c);
	const int b = Tn<typename S::value_type>::bits;
	Ev("Bin").str("op", op).ws("a", bits(a), b).ws("b", bits(c), b).ws("r", bits(r), b).end();
}
#define UN(op) un(#op, a, [](S a) { return v##op(a); });
#define BIN(op) bin(#op, a, b, [](S a, S b) { return v##op(a, b); });
template <typename T, int W>
static void events()
{
	typedef SIMD<T, W> S;
	const int B = Tn<T>::bits;
	static std::vector<T> sp = special<T>();
	Ev("Begin").str("t", Tn<T>::s()).i("n", W).end();
	int pairs = sp.size() * sp.size();
	int sweep = (pairs + W - 1) / W;
	if (!vt_thorough) sweep = std::min(sweep, 20);
	/* all pairs of special values take part, in a lane that moves on with the repetition */
	int reps = sweep + (vt_thorough ? 60 : 8);
	int start = rng->in(0, pairs - 1), part = 0;
	/* every source lane to every lane */
	if (sizeof(T) == 1)
		for (int k = 0; k < W; ++k) {
			SIMD<typename S::uint_type, W> idx;
			std::vector<int> ii(W);
			for (int i = 0; i < W; ++i) idx.v[i] = ii[i] = (i * (W % 5 ? 5 : 1) + k) % W;
			doing("shuf of %d lanes of %s", W, Tn<T>::s());
			S src = vec<S>(1);
			S r = vshuf(src, idx);
			Ev("Shuf").ws("a", bits(src), B).a("i", ii).ws("r", bits(r), B).end();
		}
	for (int rep = 0; rep < reps; ++rep) {
		S a, b, c;
		if (rep < sweep) {
			for (int i = 0; i < W; ++i) {
				int q = (start + rep * W + i) % pairs;
				a.v[i] = sp[q / sp.size()];
				b.v[i] = sp[q % sp.size()];
			}
			c = vec<S>(0);
		} else {
			a = vec<S>(rep % 4); b = vec<S>((rep / 2) % 4); c = vec<S>(rep % 3);
		}
		if (rep >= sweep && rng->one_in(3))
			for (int i = 0; i < W; ++i) if (rng->one_in(2)) b.v[i] = a.v[i];
		if constexpr (std::is_floating_point<T>::value) {
			UN(neg) UN(abs) UN(signum) UN(cgtz) UN(ceqz) UN(cltz) UN(clez)
			un("same", a, [](S a) { return vmask(a); });
			BIN(cgt) BIN(ceq) BIN(min) BIN(max) BIN(sign) BIN(copysign)
			std::vector<int> x(W), y(W), r[3];
			S p, q;
			for (int i = 0; i < W; ++i) {
				x[i] = rng->in(-1000, 1000); y[i] = rng->in(-1000, 1000);
				p.v[i] = T(x[i]) / 8; q.v[i] = T(y[i]) / 8;
			}
			doing("arithmetic of %d lanes of %s", W, Tn<T>::s());
			S sum = vadd(p, q), dif = vsub(p, q), pro = vmul(p, q);
			for (int i = 0; i < W; ++i) {
				r[0].push_back(sum.v[i] * 8 == T(int(sum.v[i] * 8)) ? int(sum.v[i] * 8) : INT32_MAX);
				r[1].push_back(dif.v[i] * 8 == T(int(dif.v[i] * 8)) ? int(dif.v[i] * 8) : INT32_MAX);
				r[2].push_back(pro.v[i] * 64 == T(int(pro.v[i] * 64)) ? int(pro.v[i] * 64) : INT32_MAX);
			}
			Ev("Arith").str("op", "add").a("a", x).a("b", y).a("r", r[0]).end();
			Ev("Arith").str("op", "sub").a("a", x).a("b", y).a("r", r[1]).end();
			Ev("Arith").str("op", "mul").a("a", x).a("b", y).a("r", r[2]).end();
		} else if constexpr (std::is_signed<T>::value) {
			{
				S keep = a;
				if (sizeof(T) >= 4)
					for (int i = 0; i < W; ++i) if (a.v[i] == std::numeric_limits<T>::min()) a.v[i] = T(i - 2);
				UN(neg) UN(abs) UN(signum)
				BIN(sign)
				a = keep;
			}
			UN(qabs) UN(cgtz) UN(ceqz) UN(cltz) UN(clez)
			un("same", a, [](S a) { return vmask(a); });
			un("same", a, [](S a) { return vunsigned(a); });
			un("same", a, [](S a) { return vsigned(vunsigned(a)); });
			BIN(cgt) BIN(ceq) BIN(min) BIN(max)
			for (int op = 0; op < 3; ++op) {
				S keep = b;
				for (int i = 0; i < W; ++i) if (!fits(op, a.v[i], b.v[i])) b.v[i] = T(op == 2 ? rng->in(0, 1) : 0);
				if (op == 0) BIN(add)
				if (op == 1) BIN(sub)
				if (op == 2) BIN(mul)
				b = keep;
			}
			if constexpr (sizeof(T) <= 2) { BIN(qadd) BIN(qsub) }
		} else {
			UN(not)
			un("same", a, [](S a) { return vsigned(a); });
			un("same", a, [](S a) { return vunsigned(vsigned(a)); });
			un("same", a, [](S a) { return vreinterpret<SIMD<typename std::make_signed<T>::type, W>>(a); });
			if constexpr (sizeof(T) == 4) un("same", a, [](S a) { return vreinterpret<SIMD<float, W>>(a); });
			if constexpr (sizeof(T) == 8) un("same", a, [](S a) { return vreinterpret<SIMD<double, W>>(a); });
			BIN(orr) BIN(and) BIN(eor) BIN(bic) BIN(cgt)
			if constexpr (sizeof(T) <= 2) { BIN(qsub) }
			doing("bsl of %d lanes of %s", W, Tn<T>::s());
			S r = vbsl(a, b, c);
			Ev("Bsl").ws("a", bits(a), B).ws("b", bits(b), B).ws("c", bits(c), B).ws("r", bits(r), B).end();
		}
		if constexpr (std::is_signed<T>::value || std::is_floating_point<T>::value) {
			int k = rng->in(0, W - 1);
			S lo = vec<S>(0), hi = lo;
			lo.v[0] = std::min(b.v[k], c.v[0]);
			hi.v[0] = std::max(b.v[k], c.v[0]);
			doing("clamp of %d lanes of %s", W, Tn<T>::s());
			S r = vclamp(a, lo.v[0], hi.v[0]);
			Ev("Clamp").ws("x", bits(a), B).w("a", lo.u[0], B).w("b", hi.u[0], B).ws("r", bits(r), B).end();
		}
		if (rep % 3 == 0 || rep < 4 || W > 8) {
			SIMD<typename S::uint_type, W> idx;
			std::vector<int> ii(W);
			bool perm = rng->one_in(2);
			for (int i = 0; i < W; ++i) ii[i] = perm ? i : rep == 1 ? W - 1 - i : rng->in(0, W - 1);
			if (perm) for (int i = W - 1; i > 0; --i) std::swap(ii[i], ii[rng->in(0, i)]);
			for (int i = 0; i < W; ++i) idx.v[i] = ii[i];
			doing("shuf of %d lanes of %s", W, Tn<T>::s());
			S src = vec<S>(1);
			S r = vshuf(src, idx);
			Ev("Shuf").ws("a", bits(src), B).a("i", ii).ws("r", bits(r), B).end();
			T v = draw<T>(rep % 4);
			S d = vdup<S>(v);
			S one = d;
			one.v[0] = v;
			Ev("Dup").w("v", one.u[0], B).ws("r", bits(d), B).end();
		}
		if (rep < 2) {
			S z = vzero<S>();
			Ev("Zero").ws("r", bits(z), B).end();
		}
		/* moderate sessions */
		if (++part % 12 == 0 && rep + 1 < reps)
			Ev("Begin").str("t", Tn<T>::s()).i("n", W).end();
	}
}
template <typename T, int N>
static void widths()
{
	/* N lanes make 128 bit */
	events<T, N>(); events<T, 2 * N>(); events<T, 3 * N>(); events<T, 4 * N>(); events<T, 1>(); events<T, N + 1>();
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng r(280);
	rng = &r;
#if PART < 2
	std::ifstream in(getenv("GEN_simd"));
	int v;
	char c;
	while (in >> c) if (in >> v) table.push_back(v);
#if PART == 0
	replay8<16>(); replay8<32>(); replay8<5>(); replay16<8>(); replay16<16>();
#else
	replay8<48>(); replay8<64>(); replay16<24>(); replay16<32>(); replay16<3>();
#endif
	printf("REPLAYED %ld\n", replayed);
	printf("SAMPLE every operation on 8 bit lanes for all operands in every lane of 5, 16, 32, 48 and 64\n");
#elif PART == 2
	widths<int8_t, 16>(); widths<uint8_t, 16>();
#elif PART == 3
	widths<int16_t, 8>(); widths<uint16_t, 8>();
#elif PART == 4
	widths<int32_t, 4>(); widths<uint32_t, 4>();
#elif PART == 5
	widths<int64_t, 2>(); widths<uint64_t, 2>();
#else
	widths<float, 4>(); widths<double, 2>();
#endif
	return vt_done();
}
