#include "trace.hh"
#include "galois_field.hh"
using namespace CODE;

template <int M, int P, typename T>
static void field(const char *name, int nops, bool rows)
{
	typedef GaloisField<M, P, T> F;
	typedef typename F::ValueType V;
	typedef typename F::IndexType I;
	doing("constructing tables of %s", name);
	F *inst = opaque(new F());
	const int N = F::N;
	Rng rng(M * 1000003 + P + sizeof(T));
	auto begin = [&](int w) { Ev("Begin").i("M", M).i("P", P).str("t", name).i("w", w).end(); };
	begin(nops * 60);
	std::vector<int> r;
	if (N <= 65535 && (rows || M >= 9)) {
		doing("%s value/index/rcp", name);
		r.clear(); for (int i = 0; i < N; ++i) r.push_back(value(I(i)).v);
		if (M <= 12 || vt_thorough) Ev("ExpRow").a("r", r).end();
		r.clear(); for (int i = 0; i < N; ++i) r.push_back(rcp(I(i)).i);
		if (M <= 12 || vt_thorough) Ev("IRcpRow").a("r", r).end();
		r.clear(); for (int i = 1; i <= N; ++i) r.push_back(index(V(i)).i);
		if (M <= 8 || vt_thorough) Ev("LogRow").a("r", r).end();
		r.clear(); for (int i = 1; i <= N; ++i) r.push_back(rcp(V(i)).v);
		if (M <= 8 || vt_thorough) Ev("RcpRow").a("r", r).end();
	}
	auto row = [&](const char *op, int x, int z) { Ev("Row").str("op", op).i("x", x).i("z", z).a("r", r).end(); };
#define ROW(OP, LO, HI, EXPR) do { r.clear(); doing("%s row %s x=%d z=%d", name, OP, x, z); for (int y = LO; y <= HI; ++y) r.push_back(EXPR); row(OP, x, z); } while (0)
	if (rows) {
		int step = 1;
		for (int x = 0; x <= N; x += step) {
			int z = rng.in(0, N);
			if (x % 16 == 0) begin(16 * (N + 1) * 60);
			ROW("mul", 0, N, (V(x) * V(y)).v);
			ROW("div", 1, N, (V(x) / V(y)).v);
			ROW("mulvi", 0, N - 1, (V(x) * I(y)).v);
			ROW("divvi", 0, N - 1, (V(x) / I(y)).v);
			ROW("fmavv", 0, N, (fma(V(x), V(y), V(z))).v);
			ROW("fmavi", 0, N - 1, (fma(V(x), I(y), V(z))).v);
			if (x < N) {
				ROW("imul", 0, N - 1, (I(x) * I(y)).i);
				ROW("idiv", 0, N - 1, (I(x) / I(y)).i);
				ROW("muliv", 0, N, (I(x) * V(y)).v);
				ROW("diviv", 1, N, (I(x) / V(y)).v);
				ROW("fmaiv", 0, N, (fma(I(x), V(y), V(z))).v);
				ROW("fmaii", 0, N - 1, (fma(I(x), I(y), V(z))).v);
			}
			if (M <= 5 || x % 16 == 3) {
				ROW("add", 0, N, (V(x) + V(y)).v);
				ROW("sub", 0, N, (V(x) - V(y)).v);
				ROW("eq", 0, N, (V(x) == V(y)));
				ROW("ne", 0, N, (V(x) != V(y)));
			}
		}
	}
	auto op = [&](const char *o, int x, int y, int z, int r) { Ev("Op").str("op", o).i("x", x).i("y", y).i("z", z).i("r", r).end(); };
	const int edge[] = { 0, 1, 2, N, N - 1, (N + 1) / 2, (N + 1) / 2 - 1 };
	begin(nops * 80);
	for (int k = 0; k < nops; ++k) {
		auto pick = [&](int hi) { int e = rng.one_in(4) ? edge[rng.in(0, 6)] : int(rng.in(0, hi)); return std::max(0, std::min(e, hi)); };
		int x = pick(N), y = pick(N), z = pick(N);
		int i = pick(N - 1), j = pick(N - 1);
		if (rng.one_in(3)) j = pick(2) ? N - 1 - i : (N - i) % N; /* around the wrap of the exponent */
		int ny = y ? y : 1;
		doing("%s ops x=%d y=%d z=%d i=%d j=%d", name, x, y, z, i, j);
		switch (k % 24) {
		case 0: op("add", x, y, z, (V(x) + V(y)).v); break;
		case 1: op("sub", x, y, z, (V(x) - V(y)).v); break;
		case 2: op("neg", x, y, z, (-V(x)).v); break;
		case 3: op("mul", x, y, z, (V(x) * V(y)).v); break;
		case 4: op("div", x, ny, z, (V(x) / V(ny)).v); break;
		case 5: op("rcp", ny, 0, z, rcp(V(ny)).v); break;
		case 6: op("eq", x, y, z, V(x) == V(y)); op("ne", x, y, z, V(x) != V(y)); op("eq", x, x, z, V(x) == V(x)); op("ne", x, x, z, V(x) != V(x)); break;
		case 7: op("value", i, 0, 0, value(I(i)).v); break;
		case 8: op("index", ny, 0, 0, index(V(ny)).i); break;
		case 9: op("imul", i, j, 0, (I(i) * I(j)).i); break;
		case 10: op("idiv", i, j, 0, (I(i) / I(j)).i); break;
		case 11: op("ircp", i, 0, 0, rcp(I(i)).i); break;
		case 12: op("mulvi", x, j, 0, (V(x) * I(j)).v); break;
		case 13: op("muliv", i, y, 0, (I(i) * V(y)).v); break;
		case 14: op("divvi", x, j, 0, (V(x) / I(j)).v); break;
		case 15: op("diviv", i, ny, 0, (I(i) / V(ny)).v); break;
		case 16: op("fmaii", i, j, z, fma(I(i), I(j), V(z)).v); break;
		case 17: op("fmaiv", i, y, z, fma(I(i), V(y), V(z)).v); break;
		case 18: op("fmavi", x, j, z, fma(V(x), I(j), V(z)).v); break;
		case 19: op("fmavv", x, y, z, fma(V(x), V(y), V(z)).v); break;
		case 20: { V t(x); t *= V(y); op("muleq", x, y, 0, t.v); } break;
		case 21: { V t(x); t *= I(j); op("muleqvi", x, j, 0, t.v); } break;
		case 22: { V t(x); t += V(y); op("addeq", x, y, 0, t.v); } break;
		case 23: { I t(i); t *= I(j); op("imuleq", i, j, 0, t.i); I u(i); u /= I(j); op("idiveq", i, j, 0, u.i); } break;
		}
	}
	delete inst;
}
template <int M, int64_t P, typename T>
static void reference(const char *name, int nops, bool rows)
{
	typedef GaloisFieldReference<M, P, T> R;
	const int N = int((int64_t(1) << M) - 1);
	Rng rng(M * 7919 + P + sizeof(T));
	Ev("Begin").i("M", M).i("P", P).str("t", name).i("w", rows ? (N + 1) * (N + 1) * 3 : nops * 200).end();
	std::vector<int> r;
	auto row = [&](const char *op, int x, int z) { Ev("Row").str("op", op).i("x", x).i("z", z).a("r", r).end(); };
	if (rows) {
		r.clear(); for (int i = 1; i <= N; ++i) { doing("%s rcp %d", name, i); r.push_back(rcp(R(i)).v); }
		Ev("RcpRow").a("r", r).end();
		for (int x = 0; x <= N; ++x) {
			int z = 0;
			ROW("mul", 0, N, (R(x) * R(y)).v);
			ROW("div", 1, N, (R(x) / R(y)).v);
		}
	}
	auto op = [&](const char *o, int x, int y, int z, int64_t r) { Ev("Op").str("op", o).i("x", x).i("y", y).i("z", z).i("r", r).end(); };
	const int edge[] = { 0, 1, 2, N, N - 1, int((int64_t(N) + 1) / 2), int((int64_t(N) + 1) / 2 - 1) };
	for (int k = 0; k < nops; ++k) {
		auto pick = [&]() { return rng.one_in(4) ? edge[rng.in(0, 6)] : int(rng.in(0, N)); };
		int x = pick(), y = pick(), ny = y ? y : 1;
		doing("%s ops x=%d y=%d", name, x, y);
		switch (k % 9) {
		case 0: op("add", x, y, 0, (R(x) + R(y)).v); break;
		case 1: op("sub", x, y, 0, (R(x) - R(y)).v); break;
		case 2: op("neg", x, y, 0, (-R(x)).v); break;
		case 3: op("mul", x, y, 0, (R(x) * R(y)).v); break;
		case 4: op("div", x, ny, 0, (R(x) / R(ny)).v); break;
		case 5: op("rcp", ny, 0, 0, rcp(R(ny)).v); break;
		case 6: op("eq", x, y, 0, R(x) == R(y)); op("ne", x, y, 0, R(x) != R(y)); op("eq", x, x, 0, R(x) == R(x)); break;
		case 7: { R t(x); t *= R(y); op("muleq", x, y, 0, t.v); } break;
		case 8: { R t(x); t += R(y); op("addeq", x, y, 0, t.v); } break;
		}
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
#define FLD(M, P, T, OPS, ROWS) field<M, P, T>("GF<" #M "," #P "," #T ">", OPS, ROWS)
#define REF(M, P, T, OPS, ROWS) reference<M, P, T>("GFR<" #M "," #P "," #T ">", OPS, ROWS)
	int s = vt_thorough ? 20 : 1;
	FLD(1, 0b11, uint8_t, 48, false);
	FLD(2, 0b111, uint8_t, 100, true);
	FLD(3, 0b1011, uint8_t, 100, true);
	FLD(3, 0b1101, uint8_t, 100, true);
	FLD(4, 0b10011, uint8_t, 200, true);
	FLD(4, 0b11001, uint16_t, 200, true);
	FLD(5, 0b100101, uint8_t, 200, true);
	FLD(5, 0b111101, uint32_t, 200, true);
	FLD(6, 0b1000011, uint8_t, 200, true);
	FLD(6, 0b1101101, uint8_t, 200, true);
	FLD(7, 0b10001001, uint8_t, 400, true);
	FLD(7, 0b10001111, uint16_t, 400, true);
	FLD(8, 0b100011101, uint8_t, 800, true);
	FLD(8, 0b100101011, uint8_t, 400, vt_thorough);
	FLD(8, 0b101100011, uint16_t, 400, vt_thorough);
	FLD(8, 0b111110101, int, 400, vt_thorough);
	FLD(9, 0b1000010001, uint16_t, 400 * s, false);
	FLD(10, 0b10000001001, uint16_t, 400 * s, false);
	FLD(11, 0b100000000101, uint16_t, 400 * s, false);
	FLD(12, 0b1000001010011, uint16_t, 400 * s, false);
	FLD(13, 0b10000000011011, uint16_t, 400 * s, false);
	FLD(14, 0b100000000101011, uint16_t, 600 * s, false);
	FLD(15, 0b1000000000000011, uint16_t, 600 * s, false);
	FLD(16, 0b10001000000001011, uint16_t, 1500 * s, false);
	FLD(16, 0b10000000000101101, uint16_t, 1500 * s, false);
	FLD(16, 0b10001000000001011, uint32_t, 500 * s, false);
	REF(2, 0b111, uint8_t, 90, true);
	REF(3, 0b1011, uint8_t, 90, true);
	REF(4, 0b10011, uint8_t, 90, true);
	REF(5, 0b100101, uint8_t, 90, true);
	REF(7, 0b10001001, uint8_t, 180, true);
	REF(8, 0b100011101, uint8_t, 360, true);
	REF(8, 0b100011011, uint8_t, 360, vt_thorough); /* irreducible, not primitive */
	REF(8, 0b100011101, uint32_t, 360, vt_thorough);
	REF(14, 0b100000000101011, uint16_t, 450 * s, false);
	REF(16, 0b10001000000001011, uint16_t, 900 * s, false);
	REF(16, 0b10000000000101101, uint32_t, 900 * s, false);
	REF(24, 0b1000000000000000010000111, uint32_t, 450 * s, false);
	REF(30, 0b1000000000000000000000001010011, uint32_t, 450 * s, false);
	return vt_done();
}
