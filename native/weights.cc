// C12 on the real WeightBlockEncoder.
#include "vf.h"
#include "weightblockencoder.h"
#include <memory>

static void run(size_t rows, size_t ch, size_t pol, unsigned bits, int style) {
  const size_t q = size_t(1) << bits;
  vf::begin("rows=%zu channels=%zu polarizations=%zu bits=%u style=%d", rows, ch, pol, bits, style);
  WeightBlockEncoder enc(pol, ch, q);
  if (enc.MetaDataFloatCount() != 1) vf::fail("MetaDataFloatCount() is %zu", enc.MetaDataFloatCount());
  if (enc.SymbolCount(rows) != rows * ch) vf::fail("SymbolCount() is %zu", enc.SymbolCount(rows));
  TimeBlockBuffer<float> buf(pol, ch), out(pol, ch);
  std::vector<std::vector<float>> in(rows);
  float scale = style == 3 ? 1e-20f : style == 4 ? 1e20f : std::pow(10.0, vf::uni() * 6 - 3);
  for (size_t r = 0; r != rows; ++r) {
    in[r].resize(ch * pol);
    for (float& x : in[r]) {
      switch (style) {
        case 0: x = vf::uni() * scale; break;
        case 1: x = vf::rnd(3) ? vf::uni() * scale : 0.0f; break;
        case 2: x = 0.0f; break;
        case 5: x = (r == rows - 1) ? scale : 0.0f; break;
        case 6: x = scale * (1 + vf::rnd(4)); break;
        default: x = vf::uni() * scale;
      }
    }
    if (style == 6 && vf::rnd(2)) in[r][vf::rnd(ch * pol)] = scale * 50;
    buf.SetData(r, r, r + 1, in[r].data());
  }
  std::vector<unsigned> sym(rows * ch + 2, 0xABCDEF01u);
  std::vector<float> meta(2, -7.0f);
  enc.Encode(buf, meta.data(), sym.data() + 1);
  if (sym[0] != 0xABCDEF01u || sym.back() != 0xABCDEF01u) vf::fail("Encode writes outside the symbols");
  if (meta[1] != -7.0f) vf::fail("Encode writes more than one scale factor");
  for (size_t r = 0; r != rows; ++r) if (std::memcmp(buf[r].visibilities.data(), in[r].data(), ch * pol * 4)) vf::fail("Encode changes row %zu", r);
  double mx = 0;
  std::vector<float> mn(rows * ch);
  for (size_t r = 0; r != rows; ++r) for (size_t c = 0; c != ch; ++c) {
    float m = in[r][c * pol];
    for (size_t p = 1; p != pol; ++p) m = std::min(m, in[r][c * pol + p]);
    mn[r * ch + c] = m;
    mx = std::max(mx, double(m));
  }
  double ref = mx == 0 ? 1 : mx;
  WeightBlockEncoder dec(pol, ch, q);
  dec.InitializeDecode(meta.data());
  std::vector<float> prev(ch * pol);
  if (vf::rnd(2)) out.resize(rows);
  else for (size_t r = 0; r != rows; ++r) { for (float& x : prev) x = -3; out.SetData(r, 0, 0, prev.data()); }
  std::vector<size_t> order(rows);
  for (size_t r = 0; r != rows; ++r) order[r] = r;
  std::shuffle(order.begin(), order.end(), vf::rng);
  std::vector<bool> done(rows, false);
  for (size_t r : order) {
    dec.Decode(out, sym.data() + 1, r);
    done[r] = true;
    for (size_t k = 0; k != rows; ++k) if (!done[k]) for (float x : out[k].visibilities) if (x != -3) vf::fail("decoding row %zu changes row %zu", r, k);
    if (out[r].visibilities.size() != ch * pol) vf::fail("row %zu has %zu samples", r, out[r].visibilities.size());
    for (size_t c = 0; c != ch; ++c) {
      unsigned s = sym[1 + r * ch + c];
      float m = mn[r * ch + c];
      if (s >= q) vf::fail("symbol %u of row %zu channel %zu does not fit in %u bits", s, r, c, bits);
      for (size_t p = 0; p != pol; ++p) {
        float d = out[r].visibilities[c * pol + p];
        if (!(std::fabs(double(d) - m) <= 0.5 * ref / (q - 1) + 2e-7 * ref)) vf::fail("row %zu channel %zu pol %zu: %.9g is decoded as %.9g (maximum %.9g, %zu steps)", r, c, p, m, d, mx, q - 1);
        if (m == 0 && d != 0) vf::fail("row %zu channel %zu: zero weight is decoded as %.9g", r, c, d);
        if (mx > 0 && m == float(mx) && !(std::fabs(d - mx) <= 1e-6 * mx)) vf::fail("the maximum %.9g is decoded as %.9g", mx, d);
      }
    }
  }
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  for (unsigned bits = 1; bits <= 16; ++bits)
    for (size_t pol : {1, 2, 4}) for (size_t ch : {1, 2, 5, 64}) for (size_t rows : {1, 2, 7}) for (int style = 0; style < 7; ++style) run(rows, ch, pol, bits, style);
  double lim = vf::thorough ? vf::budget : std::min(vf::budget, 6.0);
  while (vf::elapsed() < lim) run(1 + vf::rnd(12), 1 + vf::rnd(20), 1 + vf::rnd(4), 1 + vf::rnd(16), vf::rnd(7));
  return vf::finish();
}
