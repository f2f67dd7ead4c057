// C20: TimeBlockBuffer against a reference map of rows, with exact-size caller buffers.
#include "vf.h"
#include "timeblockbuffer.h"
using namespace vf;

template <typename T> T val();
static float bits() { uint32_t u = (uint32_t)rng(); float f; memcpy(&f, &u, 4); return f; }
static float onef() {
  switch (rnd(6)) { case 0: return NAN; case 1: return INFINITY; case 2: return -0.0f; case 3: return bits(); default: return (float)(uni() * 4 - 2); }
}
template <> float val<float>() { return onef(); }
template <> std::complex<float> val<std::complex<float>>() { return {onef(), onef()}; }
template <typename T> bool same(const T& a, const T& b) { return !memcmp(&a, &b, sizeof(T)); }

template <typename T> struct Ref { size_t a1 = 0, a2 = 0; std::vector<T> v; };

static bool conv(float a, double b) { return (std::isnan(a) && std::isnan(b)) || ((double)a == b && std::signbit(a) == std::signbit(b)); }

static void convert(const TimeBlockBuffer<std::complex<float>>& b, const std::vector<Ref<std::complex<float>>>& ref) {
  using D = TimeBlockBuffer<std::complex<double>>;
  std::vector<typename D::DataRow> out(rnd(4));
  for (auto& r : out) r.visibilities.resize(rnd(5));
  b.template ConvertVector<std::complex<double>>(out);
  if (out.size() != ref.size()) fail("ConvertVector gives %zu rows for %zu", out.size(), ref.size());
  for (size_t r = 0; r < ref.size(); ++r) {
    if (out[r].antenna1 != ref[r].a1 || out[r].antenna2 != ref[r].a2) fail("ConvertVector changes the antennas of row %zu", r);
    if (out[r].visibilities.size() != ref[r].v.size()) fail("ConvertVector changes the size of row %zu", r);
    for (size_t i = 0; i < ref[r].v.size(); ++i)
      if (!conv(ref[r].v[i].real(), out[r].visibilities[i].real()) || !conv(ref[r].v[i].imag(), out[r].visibilities[i].imag())) fail("ConvertVector changes sample %zu of row %zu", i, r);
  }
}
static void convert(const TimeBlockBuffer<float>&, const std::vector<Ref<float>>&) {}

template <typename T> void round_(const char* type) {
  size_t P = rnd(5), C = rnd(3) ? rnd(9) : rnd(120), n = P * C, big = rnd(4) ? 12 : 70;
  TimeBlockBuffer<T> b(P, C);
  std::vector<Ref<T>> ref;
  int ops = 3 + rnd(40);
  std::string log;
  for (int o = 0; o < ops; ++o) {
    char t[120];
    switch (rnd(12)) {
      case 0: {
        size_t k = rnd(big);
        snprintf(t, sizeof t, "resize(%zu);", k); log += t;
        begin("TimeBlockBuffer<%s>(%zu,%zu) %s", type, P, C, log.c_str());
        b.resize(k); ref.resize(k); break;
      }
      case 1:
        if (rnd(6) == 0) { log += "reset;"; begin("TimeBlockBuffer<%s>(%zu,%zu) %s", type, P, C, log.c_str()); b.ResetData(); ref.clear(); }
        break;
      case 2: case 3:
        begin("TimeBlockBuffer<%s>(%zu,%zu) %s convert", type, P, C, log.c_str());
        convert(b, ref); break;
      default: {
        size_t r = rnd(3) ? (ref.size() + rnd(2)) : rnd(big), a1 = rnd(rnd(2) ? 10 : 1000000), a2 = rnd(rnd(2) ? 10 : 1000000);
        if (rnd(40) == 0) a1 = (size_t)1 << 40;
        snprintf(t, sizeof t, "set(%zu,%zu,%zu);", r, a1, a2); log += t;
        begin("TimeBlockBuffer<%s>(%zu,%zu) %s", type, P, C, log.c_str());
        Block<T> d(n);
        for (size_t i = 0; i < n; ++i) d.p[i] = val<T>();
        b.SetData(r, a1, a2, d.p);
        if (ref.size() <= r) ref.resize(r + 1);
        ref[r].a1 = a1; ref[r].a2 = a2; ref[r].v.assign(d.p, d.p + n);
      }
    }
    if (b.NRows() != ref.size()) fail("%zu rows instead of %zu", b.NRows(), ref.size());
    if (b.Empty() != ref.empty()) fail("Empty() wrong");
    size_t mx = 0;
    for (auto& r : ref) mx = std::max(mx, std::max(r.a1, r.a2));
    if (b.MaxAntennaIndex() != mx) fail("highest antenna index %zu instead of %zu", b.MaxAntennaIndex(), mx);
    for (size_t r = 0; r < ref.size(); ++r) {
      size_t k = ref[r].v.size();
      Block<T> d(k);
      memset((void*)d.p, 0x5a, k * sizeof(T));
      b.GetData(r, d.p);
      for (size_t i = 0; i < k; ++i) if (!same(d.p[i], ref[r].v[i])) fail("sample %zu of row %zu is not what was stored", i, r);
      if (b[r].antenna1 != ref[r].a1 || b[r].antenna2 != ref[r].a2) fail("antennas of row %zu are not what was stored", r);
      if (b[r].visibilities.size() != k) fail("row %zu has %zu samples instead of %zu", r, b[r].visibilities.size(), k);
    }
  }
}

int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) { round_<float>("float"); round_<std::complex<float>>("complex<float>"); }
  return finish();
}
