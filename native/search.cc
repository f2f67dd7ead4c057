// C04 on the real Dictionary.
#include "vf.h"
#include "dictionary.h"
using dyscostman::Dictionary;

template <typename F>
static void call(const Dictionary& d, const char* name, float v, size_t want, F f) {
  const float* r = f(d, v);
  size_t got = r - d.begin();
  if (r < d.begin() || r > d.end() || got != want)
    vf::fail("%s(%.9g) gives position %zd, not %zu of %zu", name, v, (ssize_t)(r - d.begin()), want, d.size());
}

static void table(const std::vector<float>& t) {
  // exact heap allocation: the container reserves exactly the size given
  Dictionary d(t.size());
  std::copy(t.begin(), t.end(), d.begin());
  std::vector<float> vs;
  for (float x : t) {
    vs.push_back(x);
    vs.push_back(std::nextafterf(x, -INFINITY));
    float u = std::nextafterf(x, INFINITY);
    if (std::isfinite(u)) vs.push_back(u);
  }
  for (size_t i = 1; i < t.size(); ++i) vs.push_back(0.5f * t[i - 1] + 0.5f * t[i]);
  vs.push_back(-std::numeric_limits<float>::max());
  vs.push_back(std::numeric_limits<float>::max());
  vs.push_back(0.0f); vs.push_back(-0.0f); vs.push_back(1e-42f);
  for (float v : vs) {
    if (!std::isfinite(v)) continue;
    vf::begin("value=%.9g size=%zu", v, t.size());
    if (t.size() <= 24) for (size_t i = 0; i < t.size(); ++i) vf::more_input("%s%.9g", i ? "," : " table=", t[i]);
    size_t want = 0;
    while (want < t.size() && t[want] < v) ++want;
    if (t.size() >= 2) {
      call(d, "lower_bound", v, want, [](const Dictionary& d, float x) { return d.lower_bound(x); });
      call(d, "lower_bound_branchless_two_minimum", v, want, [](const Dictionary& d, float x) { return d.lower_bound_branchless_two_minimum(x); });
      call(d, "lower_bound_two_minimum", v, want, [](const Dictionary& d, float x) { return d.lower_bound_two_minimum(x); });
    }
    call(d, "lower_bound_branchless", v, want, [](const Dictionary& d, float x) { return d.lower_bound_branchless(x); });
    call(d, "lower_bound_one_minimum", v, want, [](const Dictionary& d, float x) { return d.lower_bound_one_minimum(x); });
    call(d, "lower_bound_slow", v, want, [](const Dictionary& d, float x) { return d.lower_bound_slow(x); });
  }
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  auto make = [](size_t n, int kind) {
    std::vector<float> t;
    std::set<float> s;
    while (s.size() < n) {
      float x = kind == 0 ? (float)(vf::uni() * 2 - 1) : kind == 1 ? (float)s.size() : kind == 2 ? (float)((vf::uni() - 0.5) * std::pow(10.0, vf::uni() * 60 - 30)) : (float)(-(double)s.size() * 0.25);
      s.insert(x);
    }
    t.assign(s.begin(), s.end());
    return t;
  };
  for (size_t n = 1; n <= 70; ++n)
    for (int k = 0; k < 4; ++k) table(make(n, k));
  for (size_t n : {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025}) table(make(n, 0));
  std::vector<float> withmax = make(15, 0);
  withmax.push_back(std::numeric_limits<float>::max());
  table(withmax);
  double lim = vf::thorough ? vf::budget : std::min(vf::budget, 8.0);
  while (vf::elapsed() < lim) table(make(1 + vf::rnd(vf::rnd(3) ? 40 : 400), vf::rnd(4)));
  return vf::finish();
}
