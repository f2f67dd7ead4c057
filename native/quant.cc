// C05, C06, C07 on the real StochasticEncoder<float>.
#include "vf.h"
#include "stochasticencoder.h"
using SE = dyscostman::StochasticEncoder<float>;
static bool C5, C6, C7;
static const float INF = std::numeric_limits<float>::infinity(), NANF = std::numeric_limits<float>::quiet_NaN(), FMAX = std::numeric_limits<float>::max();

static SE make(int dist, size_t q, double par, double rms) {
  switch (dist) {
    case 0: return SE(q, rms);
    case 1: return SE(q, rms, false);
    case 2: return SE::StudentTEncoder(q, par, rms);
    default: return SE::TruncatedGausEncoder(q, par, rms);
  }
}
static const char* NAMES[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian"};

static void check5(const SE& e, const std::string& what, float v) {
  vf::begin("%s value=%.9g", what.c_str(), v);
  size_t q = e.QuantizationCount();
  unsigned s = e.Encode(v);
  if (!std::isfinite(v)) {
    if (s != q - 1) vf::fail("Encode(%g) gives %u, not the reserved symbol %zu", v, s, q - 1);
    if (!std::isnan(e.Decode(s))) vf::fail("the reserved symbol decodes to %g", e.Decode(s));
    return;
  }
  if (s >= q - 1) vf::fail("Encode(%.9g) gives %u, not a level (%zu levels)", v, s, q - 1);
  if (s > 0 && !(e.RightBoundary(s - 1) < v)) vf::fail("Encode(%.9g) gives %u but the boundary below it is %.9g", v, s, e.RightBoundary(s - 1));
  if (!(v <= e.RightBoundary(s))) vf::fail("Encode(%.9g) gives %u but the boundary above it is %.9g", v, s, e.RightBoundary(s));
  if (!std::isfinite(e.Decode(s))) vf::fail("level %u is %g", s, e.Decode(s));
}

static void check6(const SE& e, const std::string& what, float v, unsigned d) {
  vf::begin("%s value=%.9g dither=%u", what.c_str(), v, d);
  size_t q = e.QuantizationCount(), L = q - 1;
  unsigned s = e.EncodeWithDithering(v, d);
  if (!std::isfinite(v)) {
    if (s != L) vf::fail("EncodeWithDithering(%g) gives %u, not the reserved symbol", v, s);
    if (!std::isnan(e.Decode(s))) vf::fail("the reserved symbol decodes to %g", e.Decode(s));
    return;
  }
  if (s >= L) vf::fail("EncodeWithDithering(%.9g,%u) gives %u, not a level", v, d, s);
  if (v <= e.Decode(0)) { if (s != 0) vf::fail("a value below the table gives level %u", s); return; }
  if (v >= e.Decode(L - 1)) { if (s != L - 1) vf::fail("a value at or above the highest level gives level %u of %zu", s, L); return; }
  size_t lo = 0, hi = L - 1;
  while (lo + 1 < hi) { size_t m = (lo + hi) / 2; if (e.Decode(m) < v) lo = m; else hi = m; }   // dec[lo] < v <= dec[hi]
  if (s != lo && s != hi) vf::fail("level %u is not next to the value (between %zu and %zu)", s, lo, hi);
  if (v == e.Decode(hi)) { if (s != hi) vf::fail("the value is level %zu but gives %u", hi, s); return; }
  long double mark = 2147483648.0L * ((long double)v - e.Decode(lo)) / ((long double)e.Decode(hi) - e.Decode(lo));
  // rounding of the single-precision computation of the relative position
  long double tol = mark * 6e-7L + 1.0L;
  if ((long double)d < mark - tol && s != hi) vf::fail("dither %u is below %.1Lf but the lower level %u is chosen", d, mark, s);
  if ((long double)d > mark + tol && s != lo) vf::fail("dither %u is above %.1Lf but the upper level %u is chosen", d, mark, s);
  // monotone in the dither value
  if (s == hi && d > 0 && e.EncodeWithDithering(v, vf::rnd(d)) != hi) vf::fail("a smaller dither value gives the lower level");
}

static void run(int dist, size_t q, double par, double rms) {
  char w[200];
  snprintf(w, sizeof w, "distribution=%s quantCount=%zu parameter=%g rms=%g", NAMES[dist], q, par, rms);
  vf::begin("%s", w);
  SE e = make(dist, q, par, rms);
  if (e.QuantizationCount() != q) vf::fail("QuantizationCount() is %zu", e.QuantizationCount());
  size_t L = q - 1;
  if (C7) {
    for (size_t i = 0; i != L; ++i) {
      vf::begin("%s level=%zu", w, i);
      float x = e.Decode(i);
      if (!std::isfinite(x)) vf::fail("level %zu is %g", i, x);
      if (i && !(e.Decode(i - 1) < x)) vf::fail("level %zu (%.9g) is not above level %zu (%.9g)", i, x, i - 1, e.Decode(i - 1));
      float m = e.Decode(L - 1 - i);
      if (std::fabs(x + m) > 2e-5 * std::max(std::fabs((double)x), 1e-3 * rms)) vf::fail("levels %zu (%.9g) and %zu (%.9g) are not symmetric", i, x, L - 1 - i, m);
      float b = e.RightBoundary(i);
      if (!(x < b)) vf::fail("boundary %zu (%.9g) is not above level %.9g", i, b, x);
      if (i + 1 != L && !(b < e.Decode(i + 1))) vf::fail("boundary %zu (%.9g) is not below level %zu (%.9g)", i, b, i + 1, e.Decode(i + 1));
      if (i + 1 == L && b != FMAX) vf::fail("the last boundary is %.9g", b);
      if (e.Encode(x) != i) vf::fail("level %zu is quantized to %u", i, e.Encode(x));
    }
    vf::begin("%s", w);
    if (!std::isnan(e.Decode(L))) vf::fail("the reserved entry decodes to %g", e.Decode(L));
    if (e.MaxQuantity() != e.Decode(L - 1) || e.MinQuantity() != e.Decode(0)) vf::fail("MinQuantity/MaxQuantity are not the outermost levels");
    return;
  }
  std::vector<float> vs = {0.0f, -0.0f, INF, -INF, NANF, -NANF, FMAX, -FMAX, 1e-42f, -1e-42f, std::nextafterf(FMAX, 0)};
  size_t step = L > 300 ? L / 150 : 1;
  for (size_t i = 0; i < L; i += (i < 4 || i + 4 + step > L) ? 1 : step) {
    float x = e.Decode(i), b = e.RightBoundary(i);
    for (float y : {x, b}) {
      vs.push_back(y);
      vs.push_back(std::nextafterf(y, -INF));
      if (y != FMAX) vs.push_back(std::nextafterf(y, INF));
    }
    if (i + 1 < L) { float r = e.Decode(i + 1); for (double f : {0.25, 0.5, 0.75, 0.999, vf::uni()}) vs.push_back(x + f * (r - x)); }
  }
  for (int i = 0; i < 20; ++i) vs.push_back((vf::uni() * 2 - 1) * 4 * rms);
  for (float v : vs) {
    if (C5) check5(e, w, v);
    if (C6) for (unsigned d : {0u, 1u, 12345u, 1u << 29, 1u << 30, 3u << 29, 0x7FFFFFFFu, 0x7FFFFFFEu, 0x7FFFFFC1u, (unsigned)vf::rnd(1u << 31), (unsigned)vf::rnd(1u << 31)}) check6(e, w, v, d);
  }
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  C5 = vf::property("C05"); C6 = vf::property("C06"); C7 = vf::property("C07");
  for (unsigned bits : {2, 3, 4, 6, 8, 10, 12, 16})
    for (int dist = 0; dist < 4; ++dist)
      for (double par : dist == 2 ? std::vector<double>{1, 2.5, 4, 30} : dist == 3 ? std::vector<double>{0.5, 1.5, 2.5, 4} : std::vector<double>{0})
        for (double rms : {1.0, 0.25, 300.0}) {
          if (bits == 16 && (rms != 1.0 || !C7) && !(vf::thorough)) { if (rms != 1.0) continue; }
          run(dist, size_t(1) << bits, par, rms);
        }
  for (size_t q : {3, 4, 5, 7, 9, 17, 31, 100, 257}) for (int dist = 0; dist < 4; ++dist) run(dist, q, 2.5, 1.0);
  double lim = vf::thorough ? vf::budget : std::min(vf::budget, 6.0);
  while (vf::elapsed() < lim) run(vf::rnd(4), 3 + vf::rnd(vf::rnd(2) ? 60 : 2000), double(1 + vf::rnd(7)), std::pow(10.0, vf::uni() * 6 - 3));
  return vf::finish();
}
