#include "trace.hh"
#include "bitstream.hh"
using namespace CODE;
template <int SIZE>
static void session(Rng &rng, int steps)
{
	struct Box { uint8_t pre[16]; Bitstream<SIZE> s; uint8_t post[16]; } box;
	memset(box.pre, 0xa5, 16); memset(box.post, 0x5a, 16);
	Bitstream<SIZE> &s = box.s;
	const int BY = Bitstream<SIZE>::BYTES;
	if (BY != (SIZE + 7) / 8 || Bitstream<SIZE>::BITS != SIZE) vt_mismatch("Bitstream<%d> has %d bytes", SIZE, BY);
	for (int i = 0; i < BY; ++i) s.data()[i] = rng.in(0, 255);
	Ev("Begin").i("n", SIZE).i("w", 1 + SIZE / 300).p("data", s.data(), BY).i("tell", s.tell()).end();
	auto seen = [&](Ev &e) { e.p("data", s.data(), BY).i("tell", s.tell()); e.end();
		for (int i = 0; i < 16; ++i) if (box.pre[i] != 0xa5 || box.post[i] != 0x5a) vt_mismatch("Bitstream<%d> wrote outside", SIZE); };
	for (int k = 0; k < steps; ++k) {
		int room = SIZE - s.tell();
		if (rng.one_in(3) || room <= 0) {
			int p = rng.one_in(3) ? rng.in(0, SIZE) / 8 * 8 : rng.in(0, SIZE);
			if (SIZE > 500 && rng.one_in(2)) { /* around powers of two */
				for (p = 256; p <= SIZE / 2 && !rng.one_in(3);) p *= 2;
				p -= rng.in(0, 20);
			}
			s.seek(p); Ev e("Seek"); e.i("pos", p); seen(e);
			room = SIZE - p;
		}
		doing("Bitstream<%d> at %d", SIZE, s.tell());
		switch (rng.in(0, 8)) {
		case 0: if (rng.one_in(6)) { s.reset(); Ev e("Reset"); seen(e); } break;
		case 1: if (room >= 1) { int b = rng.in(0, 1); s.putbit(b); Ev e("PutBit"); e.i("b", b); seen(e); } break;
		case 2: if (room >= 1) { int b = s.getbit(); Ev e("GetBit"); e.i("b", b); seen(e); } break;
		case 3: if (room >= 8) { int b = rng.in(0, 255); s.putbyte(b); Ev e("PutByte"); e.i("b", b); seen(e); } break;
		case 4: if (room >= 8) { int b = s.getbyte(); Ev e("GetByte"); e.i("b", b); seen(e); } break;
		case 5: { int n = rng.in(0, room / 8); Guarded<uint8_t> g(n); for (int i = 0; i < n; ++i) g[i] = rng.one_in(3) ? 255 * rng.in(0, 1) : rng.in(0, 255); Guarded<uint8_t> h(g); s.writebytes(g.data(), n); Ev e("WriteBytes"); e.p("b", g.data(), n).b("intact", g.v == h.v); seen(e); } break;
		case 6: { int n = rng.in(0, room / 8); Guarded<uint8_t> g(n); s.readbytes(g.data(), n); Ev e("ReadBytes"); e.p("b", g.data(), n).b("intact", g.intact()); seen(e); } break;
		case 7: {
			uint64_t v = rng.one_in(3) ? ~0ull * rng.in(0, 1) : rng.u64();
			int ty = rng.in(0, 4), w = ty == 0 ? 8 : ty == 1 ? 16 : ty == 2 ? 32 : ty == 3 ? 64 : 32;
			int n = rng.one_in(3) ? w : rng.in(0, w);
			if (n > room) n = room;
			switch (ty) { case 0: s.writebits(uint8_t(v), n); break; case 1: s.writebits(uint16_t(v), n); break; case 2: s.writebits(uint32_t(v), n); break; case 3: s.writebits(v, n); break; case 4: s.writebits(int(v), n); break; }
			uint8_t b[8]; for (int i = 0; i < 8; ++i) b[i] = v >> 8 * i;
			Ev e("WriteBits"); e.i("n", n).p("b", b, 8); seen(e);
		} break;
		case 8: {
			int ty = rng.in(0, 3), w = 8 << ty;
			int n = rng.one_in(3) ? w : rng.in(0, w);
			if (n > room) n = room;
			uint64_t v = 0;
			switch (ty) {
			case 0: { uint8_t x = 0xaa; s.readbits(&x, n); v = x; } break;
			case 1: { uint16_t x = 0xaaaa; s.readbits(&x, n); v = x; } break;
			case 2: { uint32_t x = 0xaaaaaaaa; s.readbits(&x, n); v = x; } break;
			case 3: { uint64_t x = 0xaaaaaaaaaaaaaaaa; s.readbits(&x, n); v = x; } break;
			}
			uint8_t b[8]; for (int i = 0; i < 8; ++i) b[i] = v >> 8 * i;
			Ev e("ReadBits"); e.i("n", n).p("b", b, 8); seen(e);
		} break;
		}
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	Rng rng(6);
	int n = vt_thorough ? 400 : 20;
	for (int k = 0; k < n; ++k) {
		session<1>(rng, 20);
		session<7>(rng, 30);
		session<8>(rng, 30);
		session<9>(rng, 30);
		session<16>(rng, 40);
		session<31>(rng, 60);
		session<64>(rng, 60);
		session<77>(rng, 80);
		session<200>(rng, 80);
		if (k % 5 == 0) session<700>(rng, 80);
		if (k % 20 == 0) session<5000>(rng, 60);
	}
	for (int k = 0; k < (vt_thorough ? 8 : 2); ++k)
		session<70001>(rng, 12);
	return vt_done();
}
