// C08-C11 on the real block encoders.
#include "vf.h"
#include <map>
#include <memory>
#include <complex>
#include "rowtimeblockencoder.h"
#include "rftimeblockencoder.h"
#include "aftimeblockencoder.h"

using SE = dyscostman::StochasticEncoder<float>;
using C = std::complex<float>;
enum Kind { kRow, kRF, kAF };
static const char* kname[] = {"row", "row-channel", "antenna-channel"};
static bool p8, p9, p10, p11;

static std::unique_ptr<TimeBlockEncoder> make(Kind k, size_t pol, size_t ch) {
  if (k == kRow) return std::make_unique<RowTimeBlockEncoder>(pol, ch);
  if (k == kRF) return std::make_unique<RFTimeBlockEncoder>(pol, ch);
  return std::make_unique<AFTimeBlockEncoder>(pol, ch, true);
}

static std::map<int, std::unique_ptr<SE>> quants;
static const SE& quant(unsigned bits, int dist) {
  auto& q = quants[bits * 8 + dist];
  if (!q) {
    size_t n = size_t(1) << bits;
    if (dist == 0) q.reset(new SE(n, 1.0, true));
    else if (dist == 1) q.reset(new SE(n, 1.0, false));
    else if (dist == 2) q.reset(new SE(SE::TruncatedGausEncoder(n, 2.5, 1.0)));
    else q.reset(new SE(SE::StudentTEncoder(n, 4.0, 1.0)));
  }
  return *q;
}

struct Block {
  size_t rows, pol, ch, ants;
  std::vector<std::vector<C>> in;
  std::vector<std::pair<size_t, size_t>> ant;
  size_t S() const { return pol * ch; }
};

static bool bothfin(C v) { return std::isfinite(v.real()) && std::isfinite(v.imag()); }

struct Coded {
  std::vector<float> meta;
  std::vector<unsigned> sym;
};

static void fill(TimeBlockBuffer<C>& b, const Block& k) {
  for (size_t r = 0; r != k.rows; ++r) b.SetData(r, k.ant[r].first, k.ant[r].second, k.in[r].data());
}

// run the encoder on exact-size buffers; `pat` prefills them
static Coded encode(TimeBlockEncoder& e, const Block& k, const SE& q, bool dither, unsigned seed, int pat) {
  TimeBlockBuffer<C> b(k.pol, k.ch);
  fill(b, k);
  size_t nm = e.MetaDataCount(k.rows, k.pol, k.ch, k.ants), ns = e.SymbolCount(k.rows);
  vf::Block<float> meta(nm);
  vf::Block<unsigned> sym(ns);
  std::memset(meta.p, pat, nm * 4);
  std::memset(sym.p, pat, ns * 4);
  std::mt19937 rnd(seed);
  if (dither) e.EncodeWithDithering(q, b, meta.p, sym.p, k.ants, rnd);
  else e.EncodeWithoutDithering(q, b, meta.p, sym.p, k.ants);
  if (p11)
    for (size_t r = 0; r != k.rows; ++r)
      if (b[r].visibilities.size() != k.S() || std::memcmp(b[r].visibilities.data(), k.in[r].data(), k.S() * 8)) vf::fail("encoding changes row %zu of the buffer", r);
  return Coded{std::vector<float>(meta.p, meta.p + nm), std::vector<unsigned>(sym.p, sym.p + ns)};
}

static double factor(Kind k, const Block& b, const Coded& c, size_t r, size_t i) {
  size_t p = i % b.pol;
  if (k == kRow) return c.meta[r];
  if (k == kRF) return double(c.meta[i]) * c.meta[b.S() + r * b.pol + p];
  return double(c.meta[i]) * c.meta[b.S() + p * b.ants + b.ant[r].first] * c.meta[b.S() + p * b.ants + b.ant[r].second];
}

// `used`: an object that encoded or decoded other blocks before
static std::vector<std::vector<C>> decode(Kind k, const Block& b, const Coded& c, const SE& q, const std::vector<size_t>& order, TimeBlockEncoder* used = nullptr) {
  auto fresh = make(k, b.pol, b.ch);
  TimeBlockEncoder* e = used ? used : fresh.get();
  vf::Block<float> meta(c.meta.size());
  vf::Block<unsigned> sym(c.sym.size());
  std::copy(c.meta.begin(), c.meta.end(), meta.p);
  std::copy(c.sym.begin(), c.sym.end(), sym.p);
  if (vf::rnd(2)) {       // a decoder that was used for another block before
    size_t r0 = 1 + vf::rnd(2 * b.rows), a0 = 1 + vf::rnd(2 * b.ants), n0 = e->MetaDataCount(r0, b.pol, b.ch, a0);
    vf::Block<float> m0(n0);
    for (size_t i = 0; i != n0; ++i) m0[i] = 3;
    e->InitializeDecode(m0.p, r0, a0);
  }
  e->InitializeDecode(meta.p, b.rows, b.ants);
  TimeBlockBuffer<C> out(b.pol, b.ch);
  out.resize(b.rows);
  std::vector<C> prev(b.S(), C(-3, -4));
  bool pre = vf::rnd(2);
  if (pre) for (size_t r = 0; r != b.rows; ++r) out.SetData(r, 7, 9, prev.data());
  std::vector<bool> done(b.rows, false);
  std::vector<std::vector<C>> res(b.rows);
  for (size_t r : order) {
    e->Decode(q, out, sym.p, r, b.ant[r].first, b.ant[r].second);
    done[r] = true;
    if (out[r].visibilities.size() != b.S()) { if (p11) vf::fail("row %zu has %zu samples after decoding", r, out[r].visibilities.size()); _exit(0); }
    res[r] = out[r].visibilities;
    if (p11) {
      if (out.NRows() != b.rows) vf::fail("decoding row %zu changes the number of rows to %zu", r, out.NRows());
      if (out[r].antenna1 != b.ant[r].first || out[r].antenna2 != b.ant[r].second) vf::fail("row %zu gets antennas %zu, %zu", r, out[r].antenna1, out[r].antenna2);
      for (size_t o = 0; o != b.rows; ++o) {
        if (done[o]) { if (out[o].visibilities.size() != b.S() || std::memcmp(out[o].visibilities.data(), res[o].data(), b.S() * 8)) vf::fail("decoding row %zu changes row %zu", r, o); }
        else if (pre) { if (out[o].antenna1 != 7 || out[o].visibilities.size() != b.S()) vf::fail("decoding row %zu changes row %zu", r, o); for (C v : out[o].visibilities) if (v != C(-3, -4)) vf::fail("decoding row %zu changes row %zu", r, o); }
        else if (!out[o].visibilities.empty()) vf::fail("decoding row %zu changes row %zu", r, o);
      }
    }
  }
  return res;
}

static float comp(C v, int q) { return q ? v.imag() : v.real(); }

static void run(Kind kind, size_t rows, size_t pol, size_t ch, size_t ants, unsigned bits, int dist, bool dither, int style) {
  unsigned seed = vf::rnd(1u << 30);
  vf::begin("normalization=%s rows=%zu polarizations=%zu channels=%zu antennas=%zu bits=%u distribution=%d dither=%d style=%d seed=%u", kname[kind], rows, pol, ch, ants, bits, dist, dither, style, seed);
  const SE& q = quant(bits, dist);
  const size_t L = q.QuantizationCount() - 1;
  const double ML = q.MaxQuantity();
  std::mt19937_64 g(seed);
  auto uni = [&] { return (g() >> 11) * (1.0 / 9007199254740992.0); };
  std::normal_distribution<double> gauss;
  Block b{rows, pol, ch, ants, {}, {}};
  const float bad[] = {NAN, INFINITY, -INFINITY};
  double scale = std::pow(10.0, uni() * 8 - 4);
  for (size_t r = 0; r != rows; ++r) {
    size_t a1 = g() % ants, a2 = g() % ants;
    if (kind == kAF) { a1 = r % ants; a2 = (r / ants + r + 1) % ants; if (style == 4 && r % 5 == 0) a2 = a1; }
    b.ant.push_back({a1, a2});
    std::vector<C> v(pol * ch);
    double rs = style == 2 ? std::pow(10.0, uni() * 6 - 3) : 1.0;
    for (size_t i = 0; i != v.size(); ++i) {
      double cs = style == 2 ? std::pow(10.0, double(i % 7) - 3) : 1.0;
      v[i] = C(gauss(g) * scale * rs * cs, gauss(g) * scale * rs * cs);
      if (kind != kAF) {
        if (style == 1 && g() % 5 == 0) v[i] = C(bad[g() % 3], bad[g() % 3]);
        if (style == 3 && g() % 3 == 0) v[i] = 0;
        if (style == 3 && g() % 4 == 0) v[i] = C(NAN, NAN);
        if (style == 5) v[i] = (i == g() % v.size()) ? C(bad[g() % 3], 0.1f * scale) : v[i];
        if (style == 6 && r == 0) v[i] = 0;
        if (style == 6 && r == 1) v[i] = C(NAN, INFINITY);
        if (style == 6 && i == 0) v[i] = 0;
        if (style == 7) v[i] = C(-std::fabs(v[i].real()), 0);
        if (style == 8) v[i] = 0;
      } else {
        if (style == 1 && g() % 9 == 0) v[i] = C(bad[g() % 3], bad[g() % 3]);
        if (style == 3 && g() % 9 == 0) v[i] = 0;
        if (style == 7) v[i] = C(-std::fabs(v[i].real()), 0);
      }
    }
    if (kind != kAF && style == 9 && v.size() > 1) { for (C& x : v) x *= 1e-3f; v[g() % v.size()] = C(0, -50 * scale); }
    b.in.push_back(v);
  }
  auto e = make(kind, pol, ch);
  if (p11) {
    size_t want = kind == kRow ? rows : kind == kRF ? pol * (ch + rows) : pol * (ch + ants);
    if (e->MetaDataCount(rows, pol, ch, ants) != want) vf::fail("MetaDataCount is %zu instead of %zu", e->MetaDataCount(rows, pol, ch, ants), want);
    if (e->SymbolCount(rows) != rows * pol * ch * 2 || e->SymbolCount(rows, pol, ch) != rows * pol * ch * 2 || e->SymbolsPerRow() != pol * ch * 2) vf::fail("symbol counts: %zu, %zu, %zu", e->SymbolCount(rows), e->SymbolCount(rows, pol, ch), e->SymbolsPerRow());
  }
  if (vf::rnd(3) == 0) {    // an encoder that was used for another block before
    Block o = b;
    for (auto& r : o.in) for (C& x : r) x = C(x.imag() * 3, 1);
    encode(*e, o, q, dither, seed, 0);
  }
  Coded c = encode(*e, b, q, dither, seed, 0x5A);
  if (p11) {
    auto e2 = make(kind, pol, ch);
    auto e3 = make(kind, pol, ch);
    Coded d = encode(*e3, b, q, dither, seed, 0x5A), d2 = encode(*e2, b, q, dither, seed, 0xA5);
    for (size_t i = 0; i != d.meta.size(); ++i) if (std::memcmp(&d.meta[i], &d2.meta[i], 4)) vf::fail("scale factor %zu is not written", i);
    for (size_t i = 0; i != d.sym.size(); ++i) if (d.sym[i] != d2.sym[i]) vf::fail("symbol %zu is not written", i);
    for (size_t i = 0; i != c.sym.size(); ++i) if (c.sym[i] > L) vf::fail("symbol %zu is %u with %zu quantities", i, c.sym[i], L + 1);
  }
  std::vector<size_t> order(rows);
  for (size_t r = 0; r != rows; ++r) order[r] = r;
  std::shuffle(order.begin(), order.end(), g);
  auto out = decode(kind, b, c, q, order, vf::rnd(2) ? e.get() : nullptr);
  if (p11) {
    std::shuffle(order.begin(), order.end(), g);
    auto o2 = decode(kind, b, c, q, order);
    for (size_t r = 0; r != rows; ++r) if (std::memcmp(out[r].data(), o2[r].data(), b.S() * 8)) vf::fail("row %zu depends on the order of decoding", r);
  }
  if (p8 && kind != kAF) {
    for (size_t r = 0; r != rows; ++r) for (size_t i = 0; i != b.S(); ++i) for (int part = 0; part != 2; ++part) {
      float x = comp(b.in[r][i], part), y = comp(out[r][i], part);
      if (std::isfinite(x) != std::isfinite(y)) vf::fail("row %zu sample %zu %s part: %.9g is decoded as %.9g", r, i, part ? "imaginary" : "real", x, y);
    }
    // the samples without any finite component have no influence on the others
    Block z = b;
    bool any = false;
    for (auto& r : z.in) for (C& x : r) if (!std::isfinite(x.real()) && !std::isfinite(x.imag())) { x = 0; any = true; }
    if (any && !dither) {
      Coded cz = encode(*e, z, q, dither, seed, 0);
      auto oz = decode(kind, z, cz, q, order);
      for (size_t r = 0; r != rows; ++r) for (size_t i = 0; i != b.S(); ++i)
        if (bothfin(b.in[r][i]) && std::memcmp(&out[r][i], &oz[r][i], 8)) vf::fail("row %zu sample %zu: decoded as (%.9g,%.9g), but as (%.9g,%.9g) when the non-finite samples are zero", r, i, out[r][i].real(), out[r][i].imag(), oz[r][i].real(), oz[r][i].imag());
    }
  }
  if (p9 || p10) {
    for (size_t r = 0; r != rows; ++r) {
      if (kind == kAF && b.ant[r].first == b.ant[r].second) continue;
      for (size_t i = 0; i != b.S(); ++i) {
        C v = b.in[r][i];
        if (!bothfin(v)) continue;
        double f = factor(kind, b, c, r, i);
        if (kind == kAF && !(f != 0 && std::isfinite(f))) continue;
        for (int part = 0; part != 2; ++part) {
          float x = comp(v, part), y = comp(out[r][i], part);
          unsigned s = c.sym[(r * b.S() + i) * 2 + part];
          if (s >= L) { if (p9) vf::fail("row %zu sample %zu: finite value gets symbol %u", r, i, s); continue; }
          if (p9) {
            double want = double(q.Decode(s)) * f;
            if (!(std::fabs(y - want) <= 2e-5 * std::fabs(want))) vf::fail("row %zu sample %zu part %d: symbol %u is decoded as %.9g, level %.9g times the stored factors is %.9g", r, i, part, s, y, q.Decode(s), want);
          }
          if (f == 0) { if (p9 && x != 0) vf::fail("row %zu sample %zu part %d: %.9g has a zero scale factor", r, i, part, x); continue; }
          double nv = x / f, tol = 3e-5 * (std::fabs(nv) + ML * 0.01);
          if (p9) {
            double lo, hi;
            if (dither) { lo = s > 0 ? q.Decode(s - 1) : -INFINITY; hi = s + 1 < L ? q.Decode(s + 1) : INFINITY; }
            else { lo = s > 0 ? q.RightBoundary(s - 1) : -INFINITY; hi = s + 1 < L ? q.RightBoundary(s) : INFINITY; }
            if (!(nv >= lo - tol && nv <= hi + tol)) vf::fail("row %zu sample %zu part %d: %.9g over the stored factors %.9g is %.9g, but symbol %u stands for %.9g to %.9g", r, i, part, x, f, nv, s, lo, hi);
          }
          if (p10 && std::fabs(nv) > ML * 1.0001) vf::fail("row %zu sample %zu part %d: normalized to %.9g, above the highest level %.9g", r, i, part, nv, ML);
        }
      }
    }
    if (p10 && kind == kRow)
      for (size_t r = 0; r != rows; ++r) {
        double top = 0; bool nz = false, mixed = false;
        for (C v : b.in[r]) { if (bothfin(v)) { top = std::max({top, std::fabs(double(v.real())), std::fabs(double(v.imag()))}); } else if (std::isfinite(v.real()) || std::isfinite(v.imag())) mixed = true; }
        nz = top > 0;
        if (nz && !mixed && !(std::fabs(top / c.meta[r] - ML) <= 1e-4 * ML)) vf::fail("row %zu: the largest component %.9g is normalized to %.9g instead of the highest level %.9g", r, top, top / c.meta[r], ML);
      }
    if (p10 && kind == kRF)
      for (size_t i = 0; i != b.S(); ++i) {
        double top = 0; bool nz = false, mixed = false;
        for (size_t r = 0; r != rows; ++r) {
          C v = b.in[r][i];
          double f = factor(kind, b, c, r, i);
          if (bothfin(v)) { if (f != 0) top = std::max({top, std::fabs(v.real() / f), std::fabs(v.imag() / f)}); nz |= v != C(0); }
          else if (std::isfinite(v.real()) || std::isfinite(v.imag())) mixed = true;
        }
        if (nz && !mixed && !(std::fabs(top - ML) <= 1e-4 * ML)) vf::fail("sample %zu of the rows: the largest normalized component is %.9g instead of the highest level %.9g", i, top, ML);
      }
  }
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  p8 = vf::property("C08"); p9 = vf::property("C09"); p10 = vf::property("C10"); p11 = vf::property("C11");
  for (int k = 0; k != 3; ++k)
    for (size_t rows : {1, 2, 3, 7}) for (size_t pol : {1, 2, 4}) for (size_t ch : {1, 2, 5, 9}) for (int style = 0; style != 10; ++style)
      run(Kind(k), rows, pol, ch, 2 + vf::rnd(4), vf::rnd(4) ? 8 : 4, vf::rnd(4), vf::rnd(2), style);
  for (int k = 0; k != 3; ++k) for (unsigned bits : {2, 3, 4, 6, 8, 10, 12}) for (int dist = 0; dist != 4; ++dist) for (int dither = 0; dither != 2; ++dither) run(Kind(k), 6, 2, 4, 4, bits, dist, dither, vf::rnd(10));
  double lim = vf::thorough ? vf::budget : std::min(vf::budget, 8.0);
  while (vf::elapsed() < lim) run(Kind(vf::rnd(3)), 1 + vf::rnd(20), 1 + vf::rnd(4), 1 + vf::rnd(30), 2 + vf::rnd(8), 2 + vf::rnd(9), vf::rnd(4), vf::rnd(2), vf::rnd(10));
  return vf::finish();
}
