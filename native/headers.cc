// C13 on the real header records and the real storage manager, on a scratch file; the expected bytes are built here.
#include "vf.h"
#include "dyscostman.h"
#include "dyscodatacolumn.h"
#include "dyscoweightcolumn.h"
#include "header.h"
#include <fstream>
#include <memory>
#include <sstream>
using namespace dyscostman;

struct Bytes {
  std::string s;
  void u(uint64_t v, int n) { for (int i = 0; i < n; ++i) s += (char)((v >> (8 * i)) & 255); }
  void d(double v) { uint64_t x; memcpy(&x, &v, 8); u(x, 8); }
  void t(const std::string& v) { u(v.size(), 4); s += v; }
};

static uint64_t val(int bits) {
  uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
  switch (vf::rnd(8)) {
    case 0: return 0;
    case 1: return m;
    case 2: return m >> 1;
    case 3: return (m >> 1) + 1;
    case 4: return 1ull << vf::rnd(bits);
    default: return vf::rng() & m;
  }
}
static double real() {
  const double v[] = {0.0, -0.0, 1.0, -2.5, 1e300, 1e-310, INFINITY, -INFINITY, NAN, 0.1};
  if (vf::rnd(2)) return v[vf::rnd(10)];
  uint64_t x = vf::rng();
  double r;
  memcpy(&r, &x, 8);
  return r;
}
static std::string text() {
  const size_t n[] = {0, 1, 2, 3, 4, 15, 16, 17, 255, 256, 300, 4095, 5000, 70000};
  std::string s(vf::rnd(2) ? n[vf::rnd(14)] : vf::rnd(64), 'x');
  for (char& c : s) c = vf::rnd(4) ? (char)('a' + vf::rnd(26)) : (char)vf::rnd(256);
  return s;
}
static bool same(double a, double b) { return !memcmp(&a, &b, 8) || (std::isnan(a) && std::isnan(b)); }
static void differ(const char* what, const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  if (i != got.size() || i != want.size()) vf::fail("%s: %zu bytes (expected %zu), first difference at byte %zu", what, got.size(), want.size(), i);
}

static void bytes_of(Bytes& b, const Header& h) {
  b.u(h.headerSize, 4); b.u(h.columnHeaderOffset, 4); b.u(h.columnCount, 4); b.t(h.storageManagerName);
  b.u(h.rowsPerBlock, 4); b.u(h.antennaCount, 4); b.u(h.blockSize, 4); b.u(h.versionMajor, 2); b.u(h.versionMinor, 2);
  b.u(h.dataBitCount, 1); b.u(h.weightBitCount, 1); b.u(h.distribution, 1); b.u(h.normalization, 1); b.d(h.studentTNu); b.d(h.distributionTruncation);
}

static void records() {
  for (int i = 0; i < (vf::thorough ? 20000 : 3000) && vf::more(); ++i) {
    Header h;
    h.headerSize = val(32); h.columnHeaderOffset = val(32); h.columnCount = val(32); h.storageManagerName = text();
    h.rowsPerBlock = val(32); h.antennaCount = val(32); h.blockSize = val(32); h.versionMajor = val(16); h.versionMinor = val(16);
    h.dataBitCount = val(8); h.weightBitCount = val(8); h.distribution = val(8); h.normalization = val(8); h.studentTNu = real(); h.distributionTruncation = real();
    vf::begin("header: headerSize %u columnHeaderOffset %u columnCount %u name of %zu bytes rowsPerBlock %u antennaCount %u blockSize %u version %u.%u bits %u %u distribution %u normalization %u nu %.17g truncation %.17g", h.headerSize, h.columnHeaderOffset,
              h.columnCount, h.storageManagerName.size(), h.rowsPerBlock, h.antennaCount, h.blockSize, h.versionMajor, h.versionMinor, h.dataBitCount, h.weightBitCount, h.distribution, h.normalization, h.studentTNu, h.distributionTruncation);
    std::stringstream s;
    h.Serialize(s);
    Bytes b;
    bytes_of(b, h);
    differ("header record", s.str(), b.s);
    if (h.calculateColumnHeaderOffset() != b.s.size()) vf::fail("calculateColumnHeaderOffset() is %u, the header has %zu bytes", h.calculateColumnHeaderOffset(), b.s.size());
    // the reader is checked on the expected bytes, so that a change of both sides is noticed
    std::istringstream in(b.s + "tail");
    Header r;
    r.storageManagerName = text();
    r.Unserialize(in);
    if (in.fail() || (size_t)in.tellg() != b.s.size()) vf::fail("reading the header does not end behind it");
    if (r.headerSize != h.headerSize || r.columnHeaderOffset != h.columnHeaderOffset || r.columnCount != h.columnCount || r.storageManagerName != h.storageManagerName || r.rowsPerBlock != h.rowsPerBlock || r.antennaCount != h.antennaCount ||
        r.blockSize != h.blockSize || r.versionMajor != h.versionMajor || r.versionMinor != h.versionMinor || r.dataBitCount != h.dataBitCount || r.weightBitCount != h.weightBitCount || r.distribution != h.distribution || r.normalization != h.normalization ||
        !same(r.studentTNu, h.studentTNu) || !same(r.distributionTruncation, h.distributionTruncation))
      vf::fail("a field of the header is read back with another value");
    if (i % 8 == 0) {
      std::istringstream cut(b.s.substr(0, vf::rnd(b.s.size())));
      Header c;
      c.Unserialize(cut);
      if (!cut.fail()) vf::fail("a cut header is read without failure");
    }
    GenericColumnHeader g, g2;
    g.columnHeaderSize = val(32);
    std::stringstream gs;
    g.Serialize(gs);
    Bytes gb;
    gb.u(g.columnHeaderSize, 4);
    differ("column header", gs.str(), gb.s);
    if (g.calculateSize() != 4) vf::fail("the column header announces %u bytes instead of 4", g.calculateSize());
    g2.Unserialize(gs);
    if (g2.columnHeaderSize != g.columnHeaderSize) vf::fail("columnHeaderSize %u is read back as %u", g.columnHeaderSize, g2.columnHeaderSize);
  }
}

template <typename F>
static void each(DyscoStMan& d, F f) {
  for (auto& c : d._columns) {
    if (auto* a = dynamic_cast<DyscoDataColumn*>(c.get())) f(static_cast<ThreadedDyscoColumn<std::complex<float>>&>(*a));
    else f(static_cast<ThreadedDyscoColumn<float>&>(dynamic_cast<DyscoWeightColumn&>(*c)));
  }
}
static void add(DyscoStMan& d, unsigned mask, int n) {
  for (int i = 0; i < n; ++i) {
    if (mask >> i & 1) d.makeDirArrColumn("WEIGHT_SPECTRUM", casacore::TpFloat, "");
    else d.makeDirArrColumn("DATA", casacore::TpComplex, "");
  }
}

static void files(const std::string& dir) {
  std::string path = dir + "/f";
  for (int i = 0; i < (vf::thorough ? 4000 : 500) && vf::more(); ++i) {
    int n = vf::rnd(6);
    unsigned mask = vf::rnd(64);
    DyscoStMan d(8, 12, text()), e(3, 4, "other");
    add(d, mask, n); add(e, mask, n);
    d._rowsPerBlock = val(32); d._antennaCount = val(32); d._blockSize = val(32); d._dataBitCount = val(8); d._weightBitCount = val(8);
    d._distribution = (DyscoDistribution)vf::rnd(4); d._normalization = (Normalization)vf::rnd(3); d._studentTNu = real(); d._distributionTruncation = real();
    each(d, [](auto& c) { c._blockSize = val(32); c._antennaCount = val(32); });
    vf::begin("file of a manager with %d columns (weight columns: mask %u), name of %zu bytes, rowsPerBlock %u antennaCount %u blockSize %u bits %u %u distribution %d normalization %d nu %.17g truncation %.17g", n, mask, d._name.size(), d._rowsPerBlock,
              d._antennaCount, d._blockSize, d._dataBitCount, d._weightBitCount, (int)d._distribution, (int)d._normalization, d._studentTNu, d._distributionTruncation);
    d._fStream.reset(new std::fstream(path, std::ios::in | std::ios::out | std::ios::trunc | std::ios::binary));
    d.writeHeader();
    d._fStream->flush();
    std::ifstream f(path, std::ios::binary);
    std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    Header h;
    h.storageManagerName = d._name;
    uint32_t hoff = 52 + d._name.size();
    h.headerSize = d._headerSize; h.columnHeaderOffset = hoff; h.columnCount = n; h.rowsPerBlock = d._rowsPerBlock; h.antennaCount = d._antennaCount; h.blockSize = d._blockSize; h.versionMajor = 1; h.versionMinor = 0;
    h.dataBitCount = d._dataBitCount; h.weightBitCount = d._weightBitCount; h.distribution = d._distribution; h.normalization = (int)d._normalization; h.studentTNu = d._studentTNu; h.distributionTruncation = d._distributionTruncation;
    Bytes b;
    bytes_of(b, h);
    each(d, [&](auto& c) { b.u(12, 4); b.u(c._blockSize, 4); b.u(c._antennaCount, 4); });
    if (got.size() > b.s.size() && got.size() <= d._headerSize) got.resize(b.s.size());   // padding up to the announced size
    differ("file header", got, b.s);
    if (d._headerSize < b.s.size()) vf::fail("the announced header size %u does not cover the %zu bytes of the headers", d._headerSize, b.s.size());
    e._fStream = std::move(d._fStream);
    e.readHeader();
    if (e._name != d._name || e._rowsPerBlock != d._rowsPerBlock || e._antennaCount != d._antennaCount || e._blockSize != d._blockSize || e._dataBitCount != d._dataBitCount || e._weightBitCount != d._weightBitCount || e._distribution != d._distribution ||
        e._normalization != d._normalization || !same(e._studentTNu, d._studentTNu) || !same(e._distributionTruncation, d._distributionTruncation) || e._headerSize != d._headerSize)
      vf::fail("a setting of the manager is read back with another value");
    for (size_t j = 0; j < d._columns.size(); ++j) {
      std::stringstream a, c;
      d._columns[j]->SerializeExtraHeader(a);
      e._columns[j]->SerializeExtraHeader(c);
      if (a.str() != c.str()) vf::fail("the header of column %zu is read back with other values", j);
    }
    // a file of another writer may leave room between column headers
    if (n) {
      size_t gap = vf::rnd(9), at = hoff + vf::rnd(9);
      Bytes o;
      h.columnHeaderOffset = at;
      bytes_of(o, h);
      o.s.resize(at, 'g');
      each(d, [&](auto& c) { o.u(12 + gap, 4); o.u(c._blockSize, 4); o.u(c._antennaCount, 4); o.s.append(gap, 'g'); });
      std::ofstream(path, std::ios::binary | std::ios::trunc) << o.s;
      DyscoStMan g(3, 4, "third");
      add(g, mask, n);
      g._fStream.reset(new std::fstream(path, std::ios::in | std::ios::out | std::ios::binary));
      g.readHeader();
      for (size_t j = 0; j < d._columns.size(); ++j) {
        std::stringstream a, c;
        d._columns[j]->SerializeExtraHeader(a);
        g._columns[j]->SerializeExtraHeader(c);
        if (a.str() != c.str()) vf::fail("the header of column %zu is not read from the announced place (offset %zu, %zu bytes apart)", j, at, 12 + gap);
      }
    }
  }
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  char dir[] = "/tmp/vfhXXXXXX";
  if (!mkdtemp(dir)) { printf("FAIL no scratch directory | input: -\n"); return 1; }
  files(dir);
  records();
  unlink((std::string(dir) + "/f").c_str());
  rmdir(dir);
  return vf::finish();
}
