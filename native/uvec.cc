// C19: UVector against std::vector under random operation sequences (address sanitizer: storage use).
#include "vf.h"
#include "uvector.h"
using namespace vf;
using aocommon::UVector;

struct S { double a; int b; };
static bool operator==(const S& x, const S& y) { return x.a == y.a && x.b == y.b; }
static bool operator<(const S& x, const S& y) { return x.a < y.a || (x.a == y.a && x.b < y.b); }
static bool operator>(const S& x, const S& y) { return y < x; }
static int counter = 0;
template <typename T> T mk() { return T(rnd(3) ? (++counter & 0x7f) : rnd(3)); }
template <> S mk<S>() { return S{double(++counter), int(rnd(1000))}; }

static std::string logs;
template <typename... A> void op(const char* fmt, A... a) {
  char t[160];
  snprintf(t, sizeof t, fmt, a...);
  logs += t;
}

template <typename T> struct Pair {
  UVector<T> u;
  std::vector<T> v;
  void check(const char* who) const {
    if (u.size() != v.size()) fail("%s: %zu elements instead of %zu", who, u.size(), v.size());
    if (u.empty() != v.empty()) fail("%s: empty() wrong", who);
    if (u.capacity() < u.size()) fail("%s: capacity %zu below the size %zu", who, u.capacity(), u.size());
    if (size_t(u.end() - u.begin()) != v.size() || size_t(u.cend() - u.cbegin()) != v.size() || size_t(u.rend() - u.rbegin()) != v.size()) fail("%s: iterators do not span the elements", who);
    size_t i = 0;
    for (const T& x : u) { if (!(x == v[i])) fail("%s: element %zu differs", who, i); ++i; }
    if (!v.empty()) {
      if (!(u.front() == v.front()) || !(u.back() == v.back()) || u.data() != &u[0] || !(*u.rbegin() == v.back()) || !(*u.crbegin() == v.back()) || !(*(u.crend() - 1) == v.front())) fail("%s: front, back or data wrong", who);
      size_t k = rnd(v.size());
      if (!(u.at(k) == v[k]) || !(u[k] == v[k])) fail("%s: access to element %zu", who, k);
    }
    bool thrown = false;
    try { (void)u.at(v.size() + rnd(3)); } catch (std::out_of_range&) { thrown = true; }
    if (!thrown) fail("%s: at() accepts a position past the end", who);
  }
};

template <typename T, bool I> struct Integral { static bool run(Pair<T>&) { return false; } };
template <typename T> struct Integral<T, true> {
  static bool run(Pair<T>& p) {
    T n = (T)rnd(9), val = mk<T>();
    size_t k = rnd(p.v.size() + 1);
    switch (rnd(4)) {
      case 0: op("assign(%d,%d);", (int)n, (int)val); p.u.assign(n, val); p.v.assign(size_t(n), val); break;
      case 1: { op("insert(%zu,%d,%d);", k, (int)n, (int)val); auto it = p.u.insert(p.u.cbegin() + k, n, val); p.v.insert(p.v.begin() + k, size_t(n), val); if (size_t(it - p.u.begin()) != k) fail("insert returns position %zu", size_t(it - p.u.begin())); break; }
      case 2: op("push_back(%d,%d);", (int)n, (int)val); p.u.push_back(n, val); p.v.insert(p.v.end(), size_t(n), val); break;
      default: op("new(%d,%d);", (int)n, (int)val); p.u = UVector<T>(n, val); p.v = std::vector<T>(size_t(n), val);
    }
    return true;
  }
};

template <typename T> void step(Pair<T>& p, Pair<T>& q) {
  auto& u = p.u;
  auto& v = p.v;
  size_t n = v.size(), k = rnd(n + 1), c = rnd(4) ? rnd(6) : rnd(40);
  // the argument of single-value operations may be an element of the container
  bool self = n && rnd(3) == 0;
  size_t s = n ? rnd(n) : 0;
  T x = self ? v[s] : mk<T>(), local = x;
  const T& arg = self ? u[s] : local;
  std::vector<T> src(c);
  for (auto& e : src) e = mk<T>();
  auto at = [&](typename UVector<T>::iterator it, size_t want) { if (size_t(it - u.begin()) != want) fail("returned position %zu instead of %zu", size_t(it - u.begin()), want); };
  const char* sn = self ? "self" : "";
  switch (rnd(38)) {
    case 0: op("push_back(%s%zu);", sn, s); u.push_back(arg); v.push_back(x); break;
    case 1: op("push_back(move);"); u.push_back(std::move(local)); v.push_back(x); break;
    case 2: { op("emplace_back(%s%zu);", sn, s); T& r = u.emplace_back(arg); v.push_back(x); if (&r != &u.back()) fail("emplace_back returns another element"); break; }
    case 3: op("push_back(range %zu);", c); u.push_back(src.begin(), src.end()); v.insert(v.end(), src.begin(), src.end()); break;
    case 4: op("push_back(%zu,%s%zu);", c, sn, s); u.push_back(c, arg); v.insert(v.end(), c, x); break;
    case 5: op("push_back(list);"); u.push_back({x, local, x}); v.insert(v.end(), {x, local, x}); break;
    case 6: { op("push_back_uninitialized(%zu);", c); u.push_back_uninitialized(c); if (u.size() != n + c) fail("push_back_uninitialized: size %zu", u.size()); for (size_t i = n; i < n + c; ++i) { u[i] = x; v.push_back(x); } break; }
    case 7: op("insert(%zu,%s%zu);", k, sn, s); at(u.insert(u.cbegin() + k, arg), k); v.insert(v.begin() + k, x); break;
    case 8: op("insert(%zu,move);", k); at(u.insert(u.cbegin() + k, std::move(local)), k); v.insert(v.begin() + k, x); break;
    case 9: op("emplace(%zu,%s%zu);", k, sn, s); at(u.emplace(u.cbegin() + k, arg), k); v.insert(v.begin() + k, x); break;
    case 10: op("insert(%zu,%zu,%s%zu);", k, c, sn, s); at(u.insert(u.cbegin() + k, c, arg), k); v.insert(v.begin() + k, c, x); break;
    case 11: op("insert(%zu,range %zu);", k, c); at(u.insert(u.cbegin() + k, src.begin(), src.end()), k); v.insert(v.begin() + k, src.begin(), src.end()); break;
    case 12: op("insert(%zu,list);", k); at(u.insert(u.cbegin() + k, {x, local}), k); v.insert(v.begin() + k, {x, local}); break;
    case 13: { op("insert_uninitialized(%zu,%zu);", k, c); at(u.insert_uninitialized(u.cbegin() + k, c), k); if (u.size() != n + c) fail("insert_uninitialized: size %zu", u.size()); for (size_t i = k; i < k + c; ++i) u[i] = x; v.insert(v.begin() + k, c, x); break; }
    case 14: case 15: if (n) { size_t e = rnd(n); op("erase(%zu);", e); at(u.erase(u.cbegin() + e), e); v.erase(v.begin() + e); } break;
    case 16: case 17: { size_t e = k + rnd(n - k + 1); op("erase(%zu,%zu);", k, e); at(u.erase(u.cbegin() + k, u.cbegin() + e), k); v.erase(v.begin() + k, v.begin() + e); break; }
    case 18: op("assign(%zu,val);", c); u.assign(c, local); v.assign(c, x); break;
    case 19: op("assign(range %zu);", c); u.assign(src.begin(), src.end()); v.assign(src.begin(), src.end()); break;
    case 20: op("assign(list);"); u.assign({x, local, x, x}); v.assign({x, local, x, x}); break;
    case 21: { size_t m = rnd(2) ? k : n + c; op("resize(%zu);", m); u.resize(m); if (u.size() != m) fail("resize: size %zu", u.size()); for (size_t i = n; i < m; ++i) u[i] = x; v.resize(m, x); break; }
    case 22: { size_t m = rnd(2) ? k : n + c; op("resize(%zu,%s%zu);", m, sn, s); u.resize(m, arg); v.resize(m, x); break; }
    case 23: { size_t m = n + rnd(20); op("reserve(%zu);", m); u.reserve(m); if (u.capacity() < m) fail("reserve(%zu): capacity %zu", m, u.capacity()); break; }
    case 24: op("shrink;"); u.shrink_to_fit(); break;
    case 25: if (rnd(3) == 0) { op("clear;"); u.clear(); v.clear(); } break;
    case 26: if (n) { op("pop_back;"); u.pop_back(); v.pop_back(); } break;
    case 27: op("swap;"); if (rnd(2)) u.swap(q.u); else swap(u, q.u); v.swap(q.v); break;
    case 28: case 29: op("copy=;"); u = q.u; v = q.v; break;
    case 30: op("copyself;"); { const UVector<T>& r = u; u = r; } break;
    case 31: op("move=;"); u = std::move(q.u); v = std::move(q.v); if (!q.u.empty()) fail("source of a move keeps elements"); q.v.clear(); break;
    case 32: { op("copyctor;"); UVector<T> t(u), t2(u, std::allocator<T>()); std::vector<T> w(v); if (!(t == u) || !(t2 == u)) fail("copy differs"); q.u = std::move(t); q.v = w; break; }
    case 33: { op("movector;"); UVector<T> t(std::move(u)); if (!u.empty()) fail("source of a move keeps elements"); UVector<T> t2(std::move(t), std::allocator<T>()); u = std::move(t2); break; }
    case 34: op("ctor(range %zu);", c); u = UVector<T>(src.begin(), src.end()); v = src; break;
    case 35: op("ctor(list);"); u = UVector<T>{x, local, x}; v = std::vector<T>{x, local, x}; break;
    case 36: { if (rnd(2)) { op("ctor(%zu,val);", c); u = UVector<T>(size_t(c), local); } else { op("ctor(%zu);", c); UVector<T> t(c); if (t.size() != c) fail("UVector(n): size %zu", t.size()); for (auto& e : t) e = x; u = std::move(t); } v = std::vector<T>(size_t(c), x); break; }
    default: Integral<T, std::is_integral<T>::value>::run(p);
  }
}

template <typename T> void round_(const char* type) {
  Pair<T> p, q;
  logs = std::string("UVector<") + type + "> ";
  size_t ops = 2 + rnd(60);
  for (size_t i = 0; i < ops; ++i) {
    bool first = rnd(3) != 0;
    logs += first ? "a." : "b.";
    begin("%s ...", logs.c_str());
    step(first ? p : q, first ? q : p);
    begin("%s", logs.c_str());
    p.check("a"); q.check("b");
    if ((p.u == q.u) != (p.v == q.v) || (p.u != q.u) != (p.v != q.v) || (p.u < q.u) != (p.v < q.v) || (p.u <= q.u) != (p.v <= q.v) || (p.u > q.u) != (p.v > q.v) || (p.u >= q.u) != (p.v >= q.v)) fail("comparison of the two containers");
  }
}
static bool operator!=(const S& x, const S& y) { return !(x == y); }

int main(int argc, char** argv) {
  init(argc, argv);
  while (more()) {
    round_<int>("int"); round_<double>("double"); round_<unsigned char>("uchar"); round_<S>("S"); round_<size_t>("size_t");
  }
  return finish();
}
