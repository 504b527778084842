#include "trace.hh"
#include "bitman.hh"
using namespace CODE;
/* operations within a window of a long array, the rest of it watched */
static void window(Rng &rng, long bytes, long at, int ops)
{
	static std::vector<uint8_t> buf, was;
	int n = std::min<long>(8, bytes);
	long off = std::max(0L, std::min(at - rng.in(0, n - 1), bytes - n));
	buf.resize(bytes + 64); was.resize(bytes + 64);
	for (long i = 0; i < bytes + 64; ++i) buf[i] = i * 167 + (i >> 8);
	was = buf;
	uint8_t *data = buf.data() + 32;
	Ev("Begin").p("data", data + off, n).i("off", off).end();
	auto rest = [&]() {
		return std::equal(buf.begin(), buf.begin() + 32 + off, was.begin()) && std::equal(buf.begin() + 32 + off + n, buf.end(), was.begin() + 32 + off + n);
	};
	for (int i = 0; i < ops; ++i) {
		long p = 8 * off + rng.in(0, 8 * n - 1);
		int big = rng.in(0, 1), v = rng.in(0, 1), k = rng.in(0, 2);
		const char *ord = big ? "be" : "le";
		doing("bit %ld of %ld bytes %s %d", p, bytes, ord, v);
		if (k == 0) { if (big) xor_be_bit(data, p, v); else xor_le_bit(data, p, v); }
		else if (k == 1) { if (big) set_be_bit(data, p, v); else set_le_bit(data, p, v); }
		else v = big ? get_be_bit(data, p) : get_le_bit(data, p);
		Ev(k == 0 ? "Flip" : k == 1 ? "Set" : "Get").str("ord", ord).i("p", p).i("v", v).p("data", data + off, n).b("intact", rest()).end();
	}
}
int main(int argc, char **argv)
{
	vt_init(argc, argv);
	{
		Rng far(9);
		for (int k = 3; k < 20; ++k)
			for (int t = 0; t < (vt_thorough ? 12 : 3); ++t)
				window(far, (1L << k) + (t % 3 ? 9 : 0), t % 3 == 2 ? far.in(0, (1L << k) - 1) : (1L << k) - (t % 3 == 0), 24);
		for (int t = 0; t < (vt_thorough ? 400 : 40); ++t)
			window(far, 3000, far.in(0, 2999), 12);
		if (vt_thorough) window(far, 1L << 28, (1L << 28) - 1, 12);
	}
	Rng rng(7);
	/* every byte value, position, order, operation and truth */
	for (int b = 0; b < 256; b += vt_thorough ? 1 : 5) {
		for (int big = 0; big < 2; ++big) {
			uint8_t buf[3] = { uint8_t(rng.in(0, 255)), uint8_t(b), uint8_t(rng.in(0, 255)) };
			Ev("Begin").p("data", buf, 3).i("off", 0).end();
			const char *ord = big ? "be" : "le";
			for (int p = 8; p < 16; ++p) {
				for (int v = 0; v < 2; ++v) {
					doing("bit %d of %d %s %d", p, b, ord, v);
					if (big) xor_be_bit(buf, p, v); else xor_le_bit(buf, p, v);
					Ev("Flip").str("ord", ord).i("p", p).i("v", v).p("data", buf, 3).b("intact", true).end();
					int g = big ? get_be_bit(buf, p) : get_le_bit(buf, p);
					Ev("Get").str("ord", ord).i("p", p).i("v", g).p("data", buf, 3).b("intact", true).end();
					if (big) set_be_bit(buf, p, v); else set_le_bit(buf, p, v);
					Ev("Set").str("ord", ord).i("p", p).i("v", v).p("data", buf, 3).b("intact", true).end();
					if (big) set_be_bit(buf, p, v); else set_le_bit(buf, p, v);
					Ev("Set").str("ord", ord).i("p", p).i("v", v).p("data", buf, 3).b("intact", true).end();
				}
				if (big) set_be_bit(buf, p, (b >> (p & 7)) & 1); else set_le_bit(buf, p, (b >> (p & 7)) & 1);
				Ev("Set").str("ord", ord).i("p", p).i("v", (b >> (p & 7)) & 1).p("data", buf, 3).b("intact", true).end();
			}
		}
	}
	for (int k = 0; k < (vt_thorough ? 1000 : 60); ++k) {
		int n = rng.in(1, 40);
		Guarded<uint8_t> g(n);
		for (int i = 0; i < n; ++i) g[i] = rng.in(0, 255);
		Ev("Begin").p("data", g.data(), n).i("off", 0).end();
		for (int i = 0; i < 60; ++i) {
			int p = rng.in(0, 8 * n - 1), big = rng.in(0, 1), val = rng.in(0, 1);
			const char *ord = big ? "be" : "le";
			/* truth from values with other bits set */
			int odd = val ? int(rng.in(1, 1000)) * 2 : 0;
			doing("bit %d of %d bytes %s %d", p, n, ord, odd);
			switch (rng.in(0, 2)) {
			case 0: if (big) xor_be_bit(g.data(), p, odd); else xor_le_bit(g.data(), p, odd);
				Ev("Flip").str("ord", ord).i("p", p).i("v", val).p("data", g.data(), n).b("intact", g.intact()).end(); break;
			case 1: if (big) set_be_bit(g.data(), p, odd); else set_le_bit(g.data(), p, odd);
				Ev("Set").str("ord", ord).i("p", p).i("v", val).p("data", g.data(), n).b("intact", g.intact()).end(); break;
			case 2: { int v = big ? get_be_bit(g.data(), p) : get_le_bit(g.data(), p);
				Ev("Get").str("ord", ord).i("p", p).i("v", v).p("data", g.data(), n).b("intact", g.intact()).end(); } break;
			}
		}
	}
	return vt_done();
}
