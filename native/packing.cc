// C01, C02, C03 on the real BytePacker: reference bit stream, exact buffers, unsupported rates.
#include "vf.h"
#include <stdexcept>
#include "bytepacker.h"
using dyscostman::BytePacker;
static bool C1, C2, C3;   // the property that is decided in this run
static const unsigned RATES[] = {2, 3, 4, 6, 8, 10, 12, 16};

template <typename F>
static void call(F f) {
  try { f(); } catch (std::exception& e) { if (!C2) vf::fail("a supported rate is refused: %s", e.what()); }
}

static void one(unsigned b, size_t n, int pattern) {
  vf::begin("bits=%u n=%zu pattern=%d", b, n, pattern);
  size_t nb = (n * b + 7) / 8;
  if (C2 && BytePacker::bufferSize(n, b) != nb) vf::fail("bufferSize(%zu,%u) is %zu, not %zu", n, b, (size_t)BytePacker::bufferSize(n, b), nb);
  vf::Block<unsigned> src(n, !C2), out(n, !C2);
  unsigned mask = (1u << b) - 1;
  for (size_t i = 0; i < n; ++i) {
    unsigned v;
    switch (pattern) {
      case 0: v = vf::rng(); break;
      case 1: v = mask; break;
      case 2: v = 0; break;
      case 3: v = i & 1 ? mask : 0; break;
      case 4: v = i; break;
      case 5: v = 1u << (i % b); break;
      default: v = vf::rng() & vf::rng(); break;
    }
    src[i] = v & mask;
    if (n <= 40) vf::more_input("%s%u", i ? "," : " symbols=", src[i]);
  }
  std::vector<unsigned> keep(src.p, src.p + n);
  vf::Block<unsigned char> dst(nb, !C2);
  for (size_t i = 0; i < nb; ++i) dst[i] = 0xA5;
  call([&] { BytePacker::pack(b, dst.p, src.p, n); });
  if (C2 && !std::equal(keep.begin(), keep.end(), src.p)) vf::fail("pack changed its input");
  if (C3) for (size_t i = 0; i < n; ++i)
    for (unsigned t = 0; t < b; ++t) {
      size_t bit = i * b + t;
      unsigned got = (dst[bit / 8] >> (bit % 8)) & 1, want = (src[i] >> t) & 1;
      if (got != want) vf::fail("bit %u of symbol %zu is not at bit %zu of the stream", t, i, bit);
    }
  // unpack what pack made
  std::vector<unsigned char> keepb(dst.p, dst.p + nb);
  for (size_t i = 0; i < n; ++i) out[i] = 0xDEADBEEF;
  call([&] { BytePacker::unpack(b, out.p, dst.p, n); });
  if (C2 && !std::equal(keepb.begin(), keepb.end(), dst.p)) vf::fail("unpack changed its input");
  if (C1) for (size_t i = 0; i < n; ++i)
    if (out[i] != src[i]) vf::fail("symbol %zu: packed %u, unpacked %u", i, src[i], out[i]);
  if (!C3) return;
  // unpack a stream with arbitrary padding bits, made independently
  for (size_t i = 0; i < nb; ++i) dst[i] = vf::rng();
  for (size_t i = 0; i < n; ++i)
    for (unsigned t = 0; t < b; ++t) {
      size_t bit = i * b + t;
      dst[bit / 8] = (dst[bit / 8] & ~(1u << (bit % 8))) | (((src[i] >> t) & 1) << (bit % 8));
    }
  for (size_t i = 0; i < n; ++i) out[i] = 0xDEADBEEF;
  call([&] { BytePacker::unpack(b, out.p, dst.p, n); });
  for (size_t i = 0; i < n; ++i)
    if (out[i] != src[i]) vf::fail("symbol %zu of a little-endian bit stream: %u, unpacked %u", i, src[i], out[i]);
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  C1 = vf::property("C01"); C2 = vf::property("C02"); C3 = vf::property("C03");
  for (unsigned b : RATES)
    for (size_t n = 0; n <= 67; ++n)
      for (int p = 0; p < 7; ++p) one(b, n, p);
  for (unsigned b : RATES)
    for (size_t n : {127, 128, 129, 255, 256, 257, 1000, 1023, 1025, 4096, 4099, 65535, 65537, 100003, 262147}) one(b, n, 0);
  // every value of every symbol position in a group
  if (C1) for (unsigned b : RATES) {
    unsigned m = 1u << b;
    for (unsigned v = 0; v < m; v += (m > 4096 ? 13 : 1)) {
      unsigned s[11], o[11];
      unsigned char d[32];
      for (int i = 0; i < 11; ++i) s[i] = (v + 37u * i) % m;
      vf::begin("bits=%u n=11 symbols=(v+37*i) mod %u, v=%u", b, m, v);
      BytePacker::pack(b, d, s, 11);
      BytePacker::unpack(b, o, d, 11);
      for (int i = 0; i < 11; ++i) if (o[i] != s[i]) vf::fail("symbol %d: packed %u, unpacked %u", i, s[i], o[i]);
    }
  }
  if (C3) for (unsigned b = 0; b < 70; ++b) {
    bool ok = std::find(std::begin(RATES), std::end(RATES), b) != std::end(RATES);
    if (ok) continue;
    for (size_t n : {0, 1, 5, 16}) {
      vf::begin("unsupported bits=%u n=%zu", b, n);
      unsigned s[64], s2[64];
      unsigned char d[512];
      memset(d, 0x5A, sizeof d);
      for (auto& x : s) x = 1;
      bool threw = false;
      try { BytePacker::pack(b, d, s, n); } catch (std::exception&) { threw = true; }
      if (!threw) vf::fail("pack accepts %u bits", b);
      for (unsigned char c : d) if (c != 0x5A) vf::fail("pack wrote output for %u bits", b);
      threw = false;
      memset(s2, 0x77, sizeof s2);
      try { BytePacker::unpack(b, s2, d, n); } catch (std::exception&) { threw = true; }
      if (!threw) vf::fail("unpack accepts %u bits", b);
      for (unsigned c : s2) if (c != 0x77777777) vf::fail("unpack wrote output for %u bits", b);
    }
  }
  double lim = vf::thorough ? vf::budget : std::min(vf::budget, 5.0);
  while (vf::elapsed() < lim) one(RATES[vf::rnd(8)], vf::rnd(vf::rnd(4) ? 50 : 3000), 0);
  return vf::finish();
}
