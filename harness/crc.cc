#include "trace.hh"
#include "crc.hh"
using namespace CODE;
template <typename T>
static void session(Rng &rng, T poly, T init, bool deflt, int steps)
{
	const int W = 8 * sizeof(T), LW = W < 16 ? 16 : W;
	doing("CRC<%d> poly=%" PRIx64 " init=%" PRIx64, W, (uint64_t)poly, (uint64_t)init);
	/* another register, used in between */
	CRC<T> other(rng.u64(), rng.u64());
	CRC<T> crc = deflt ? CRC<T>(poly) : CRC<T>(poly, init);
	bool late = rng.one_in(2);
	if (late) other = CRC<T>(rng.u64());
	CRC<T> third(rng.u64());
	if (deflt) init = 0;
	Ev("Begin").i("W", W).w("poly", poly, LW).w("init", init, LW).end();
	if (rng.one_in(2)) Ev("Read").w("r", crc(), LW).end();
	auto word = [&]() -> uint64_t { switch (rng.in(0, 5)) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << rng.in(0, 63); case 3: return crc(); default: return rng.u64(); } };
	for (int k = 0; k < steps; ++k) {
		uint64_t d = word();
		if (rng.one_in(3)) { other(uint8_t(rng.u64())); third(bool(rng.in(0, 1))); }
		if (rng.one_in(20)) other.reset(rng.u64());
		switch (rng.in(0, 7)) {
		case 0: { bool b = d & 1; T r = crc(b); Ev("Update").i("n", 1).w("d", b, 64).w("r", r, LW).end(); } break;
		case 1: case 2: { T r = crc(uint8_t(d)); Ev("Update").i("n", 8).w("d", d & 255, 64).w("r", r, LW).end(); } break;
		case 3: { T r = crc(uint16_t(d)); Ev("Update").i("n", 16).w("d", d & 65535, 64).w("r", r, LW).end(); } break;
		case 4: { T r = crc(uint32_t(d)); Ev("Update").i("n", 32).w("d", d & 0xffffffff, 64).w("r", r, LW).end(); } break;
		case 5: { T r = crc(d); Ev("Update").i("n", 64).w("d", d, 64).w("r", r, LW).end(); } break;
		case 6: Ev("Read").w("r", crc(), LW).end(); break;
		case 7: if (rng.one_in(3)) { if (rng.one_in(2)) { crc.reset(); d = 0; } else crc.reset(T(d)); Ev("Reset").w("v", T(d), LW).end(); } break;
		}
	}
	Ev("Read").w("r", crc(), LW).end();
}
/* all bytes from one start, and all starts for the 8 bit register */
template <typename T>
static void table(T poly, T start)
{
	const int W = 8 * sizeof(T), LW = W < 16 ? 16 : W;
	Ev("Begin").i("W", W).w("poly", poly, LW).w("init", start, LW).end();
	CRC<T> crc(poly, start);
	std::vector<uint64_t> d, r;
	for (int i = 0; i < 256; ++i) { d.push_back(i); r.push_back(crc(uint8_t(i))); }
	Ev("Run").i("n", 8).ws("d", d, 16).ws("r", r, LW).end();
	d.clear(); r.clear();
	for (int i = 0; i < 16; ++i) { d.push_back(i & 1); r.push_back(crc(bool(i & 1))); }
	Ev("Run").i("n", 1).ws("d", d, 16).ws("r", r, LW).end();
}
template <typename T>
static void type(std::initializer_list<uint64_t> polys)
{
	Rng rng(sizeof(T));
	int s = vt_thorough ? 20 : 1;
	for (uint64_t p : polys) {
		session<T>(rng, p, 0, true, 30);
		session<T>(rng, p, ~T(0), false, 30);
		session<T>(rng, p, rng.u64(), false, 30);
		table<T>(p, rng.u64());
		table<T>(p, 0);
	}
	for (int k = 0; k < 20 * s; ++k)
		session<T>(rng, rng.u64(), rng.u64(), rng.one_in(4), 30);
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	type<uint8_t>({ 0x8c, 0xd9, 0xff, 0x80, 0x01, 0x00 });
	type<uint16_t>({ 0xa8f4, 0x8408, 0xa001, 0xffff, 1, 0x8000 });
	type<uint32_t>({ 0x8f6e37a0, 0xedb88320, 0xd419cc15, 0xffffffff, 1, 0x80000000 });
	type<uint64_t>({ 0xd800000000000000, 0xc96c5795d7870f42, ~0ull, 1, 1ull << 63 });
	return vt_done();
}
