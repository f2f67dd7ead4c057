// C15 and C16 on the real storage manager, with casacore tables in a scratch directory.
#include "vf.h"
#include "dyscostman.h"
#include "header.h"
#include <casacore/tables/Tables.h>
#include <fstream>
#include <memory>
#include <sstream>
using namespace casacore;
using namespace dyscostman;

static const char* DIST[] = {"Gaussian", "Uniform", "StudentsT", "TruncatedGaussian"};

static std::string settings(const DyscoStMan& d) {
  char b[400];
  snprintf(b, sizeof b, "data bits %u, weight bits %u, distribution %d, normalization %d, nu %.17g, truncation %.17g", d._dataBitCount, d._weightBitCount, (int)d._distribution, (int)d._normalization, d._studentTNu, d._distributionTruncation);
  return b;
}

static void configure(DyscoStMan& d, int dist, int nrm, double nu, double tr) {
  d.SetStudentsTDistribution(nu);
  d.SetTruncatedGaussianDistribution(tr);
  if (dist == 0) d.SetGaussianDistribution();
  else if (dist == 1) d.SetUniformDistribution();
  else if (dist == 2) d.SetStudentsTDistribution(nu);
  d.SetNormalization(nrm == 0 ? Normalization::kAF : nrm == 1 ? Normalization::kRF : Normalization::kRow);
}

static void roundtrip() {
  const double vals[] = {0.0, 1.0, 2.5, 1e-300, -3.75, 1e300, 4.0000000000000009, 0.1};
  for (unsigned db : {1u, 2u, 3u, 4u, 6u, 8u, 10u, 12u, 16u, 255u, 256u, 70000u})
    for (unsigned wb : {1u, 12u, 16u, 300u})
      for (int dist = 0; dist < 4; ++dist)
        for (int nrm = 0; nrm < 3; ++nrm) {
          double nu = vals[vf::rnd(8)], tr = vals[vf::rnd(8)];
          vf::begin("data bits %u weight bits %u distribution %s normalization %s nu %.17g truncation %.17g", db, wb, DIST[dist], nrm == 0 ? "AF" : nrm == 1 ? "RF" : "Row", nu, tr);
          DyscoStMan d(db, wb, "first");
          configure(d, dist, nrm, nu, tr);
          if (d._dataBitCount != db || d._weightBitCount != wb || (int)d._distribution != (int)(dist == 0 ? GaussianDistribution : dist == 1 ? UniformDistribution : dist == 2 ? StudentsTDistribution : TruncatedGaussianDistribution))
            vf::fail("the settings made are not taken: %s", settings(d).c_str());
          Record r = d.dataManagerSpec();
          std::unique_ptr<DataManager> n, c;
          try {
            n.reset(DyscoStMan::makeObject("second", r));
            c.reset(d.clone());
          } catch (std::exception& e) {
            vf::fail("the specification is refused: %s", e.what());
          }
          if (settings(static_cast<DyscoStMan&>(*n)) != settings(d)) vf::fail("new manager: %s; source: %s", settings(static_cast<DyscoStMan&>(*n)).c_str(), settings(d).c_str());
          if (n->dataManagerName() != "second") vf::fail("new manager has another name");
          if (settings(static_cast<DyscoStMan&>(*c)) != settings(d)) vf::fail("clone: %s; source: %s", settings(static_cast<DyscoStMan&>(*c)).c_str(), settings(d).c_str());
          if (c->dataManagerName() != "first") vf::fail("the clone has another name");
          d.SetStaticSeed(true);
          c.reset(d.clone());
          if (!static_cast<DyscoStMan&>(*c)._staticSeed) vf::fail("the clone has another static seed setting");
        }
}

template <typename F>
static bool throws(F f) {
  try { f(); } catch (std::exception&) { return true; }
  return false;
}

static void refusals() {
  auto spec = [](int db, int wb, const char* d, const char* n) {
    Record r;
    r.define("dataBitCount", db); r.define("weightBitCount", wb); r.define("distribution", d); r.define("normalization", n);
    r.define("studentTNu", 1.0); r.define("distributionTruncation", 2.0);
    return r;
  };
  auto expect = [&](Record r, bool bad, const char* what) {
    bool t = throws([&] { std::unique_ptr<DataManager> m(DyscoStMan::makeObject("x", r)); });
    if (t != bad) vf::fail("specification %s is %s", what, t ? "refused" : "accepted");
  };
  const char* ds[] = {"Gaussian", "Uniform", "StudentT", "TruncatedGaussian", "gaussian", "", "Gauss", "Gaussian ", "Student", "AF", "uniform", "Truncated"};
  const char* ns[] = {"AF", "RF", "Row", "row", "", "A", "AFR", "ROW", "Gaussian", "Af"};
  for (int i = 0; i < 12; ++i)
    for (int j = 0; j < 10; ++j)
      for (int db : {0, 1, 8})
        for (int wb : {0, 1, 12}) {
          char w[200];
          snprintf(w, sizeof w, "dataBitCount=%d weightBitCount=%d distribution=\"%s\" normalization=\"%s\"", db, wb, ds[i], ns[j]);
          vf::begin("%s", w);
          expect(spec(db, wb, ds[i], ns[j]), i >= 4 || j >= 3 || !db || !wb, w);
        }
  // columns
  for (int t = 0; t <= (int)TpTable; ++t)
    for (const char* name : {"DATA", "WEIGHT_SPECTRUM", "X"}) {
      vf::begin("column %s of type %d", name, t);
      DyscoStMan d(8, 12, "x");
      if (!throws([&] { d.makeScalarColumn(name, t, ""); })) vf::fail("a scalar column is accepted");
      if (!throws([&] { d.makeIndArrColumn(name, t, ""); })) vf::fail("an indirect array column is accepted");
      bool ok = strcmp(name, "WEIGHT_SPECTRUM") ? t == TpComplex : t == TpFloat;
      bool th = throws([&] { d.makeDirArrColumn(name, t, ""); });
      if (th == ok) vf::fail("the column is %s", th ? "refused" : "accepted");
    }
  for (unsigned n : {1u, 2u, 5u, 100u})
    for (unsigned row = 0; row < n + 2; ++row) {
      vf::begin("removing row %u of %u", row, n);
      DyscoStMan d(8, 12, "x");
      d.addRow(n);
      bool th = throws([&] { d.removeRow(row); });
      if (th != (row + 1 != n)) vf::fail("removal is %s", th ? "refused" : "accepted");
      if (d.getNRow() != (th ? n : n - 1)) vf::fail("%u rows are left", d.getNRow());
    }
  for (int k = 0; k < 3; ++k) {
    vf::begin("prepare with bit rates %d %d", k == 0 ? 0 : 8, k == 1 ? 0 : 8);
    DyscoStMan d(k == 0 ? 0 : 8, k == 1 ? 0 : 8, "x");
    if (throws([&] { d.prepare(); }) != (k < 2)) vf::fail("prepare is %s", k < 2 ? "accepted" : "refused");
  }
}

static void make_table(const std::string& name, int columns, const char* norm, size_t nAnt, int nTimes) {
  TableDesc td;
  IPosition shape(2, 2, 3);
  std::vector<std::string> cols = {"DATA", "WEIGHT_SPECTRUM", "MODEL"};
  for (int c = 0; c < columns; ++c) {
    if (cols[c] == "WEIGHT_SPECTRUM") {
      ArrayColumnDesc<float> d(cols[c], "", "DyscoStMan", "", shape);
      d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
      td.addColumn(d);
    } else {
      ArrayColumnDesc<Complex> d(cols[c], "", "DyscoStMan", "", shape);
      d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape);
      td.addColumn(d);
    }
  }
  for (const char* c : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID"}) td.addColumn(ScalarColumnDesc<int>(c));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
  SetupNewTable setup(name, td, Table::New);
  Record spec;
  spec.define("distribution", "TruncatedGaussian"); spec.define("normalization", norm); spec.define("distributionTruncation", 2.0);
  spec.define("dataBitCount", 10); spec.define("weightBitCount", 12);
  register_dyscostman();
  std::unique_ptr<DataManager> dm(DataManager::getCtor("DyscoStMan")("DM", spec));
  for (int c = 0; c < columns; ++c) setup.bindColumn(cols[c], *dm);
  Table t(setup);
  size_t nbl = nAnt * (nAnt - 1) / 2, n = nbl * nTimes;
  t.addRow(n);
  ScalarColumn<int> a1(t, "ANTENNA1"), a2(t, "ANTENNA2"), f(t, "FIELD_ID"), dd(t, "DATA_DESC_ID");
  ScalarColumn<double> tm(t, "TIME");
  size_t i = 0;
  for (int k = 0; k < nTimes; ++k)
    for (size_t p = 0; p < nAnt; ++p)
      for (size_t q = p + 1; q < nAnt; ++q, ++i) { a1.put(i, p); a2.put(i, q); f.put(i, 0); dd.put(i, 0); tm.put(i, 10.0 + k); }
  for (int c = 0; c < columns; ++c)
    for (size_t r = 0; r < n; ++r) {
      if (cols[c] == "WEIGHT_SPECTRUM") { Array<float> a(shape); a = float(r + 1); ArrayColumn<float>(t, cols[c]).put(r, a); }
      else { Array<Complex> a(shape); a = Complex(r + 1, c); ArrayColumn<Complex>(t, cols[c]).put(r, a); }
    }
}

static std::string slurp(const std::string& f) {
  std::ifstream s(f, std::ios::binary);
  std::stringstream b; b << s.rdbuf();
  return b.str();
}

static void spit(const std::string& f, const std::string& d) { std::ofstream(f, std::ios::binary | std::ios::trunc) << d; }

static bool opens(const std::string& name) {
  return !throws([&] { Table t(name); Array<Complex> a; ArrayColumn<Complex>(t, "DATA").get(0, a); });
}

static void files() {
  for (int cols : {1, 2, 3}) {
    std::string name = "T" + std::to_string(cols);
    make_table(name, cols, cols == 1 ? "AF" : cols == 2 ? "RF" : "Row", 3, 3);
    std::string file;
    for (int i = 0; i < 40; ++i) {
      std::string c = name + "/table.f" + std::to_string(i);
      std::string d = slurp(c);
      if (d.size() > 16 && d.find(std::string("DM")) == 16) file = c;
    }
    if (file.empty()) { printf("CASES 0 DISTINCT 0\n"); _exit(3); }
    std::string good = slurp(file);
    auto u32 = [&](size_t o) { uint32_t v; memcpy(&v, &good[o], 4); return v; };
    uint32_t hoff = u32(4), end = hoff + cols * 12;
    vf::begin("the unchanged file, %d columns", cols);
    if (!opens(name)) vf::fail("is refused");
    size_t ver = 16 + u32(12) + 12;
    for (int mj = 0; mj < 5; ++mj)
      for (int mn = 0; mn < 5; ++mn) {
        std::string b = good;
        uint16_t v[2] = {(uint16_t)(mj == 4 ? 257 : mj), (uint16_t)(mn == 4 ? 256 : mn)};
        memcpy(&b[ver], v, 4);
        spit(file, b);
        vf::begin("file format version %u.%u, %d columns", v[0], v[1], cols);
        bool o = opens(name);
        if (o != (v[0] == 1 && v[1] == 0)) vf::fail("the file is %s", o ? "accepted" : "refused");
      }
    for (uint32_t c : {0u, 1u, 2u, 3u, 4u, 5u, 256u, 257u, 65537u}) {
      std::string b = good;
      memcpy(&b[8], &c, 4);
      spit(file, b);
      vf::begin("column count %u in the file of a table with %d columns", c, cols);
      bool o = opens(name);
      if (o != (c == (uint32_t)cols)) vf::fail("the file is %s", o ? "accepted" : "refused");
    }
    for (size_t n = 0; n < end; ++n) {
      spit(file, good.substr(0, n));
      vf::begin("file cut to %zu of %u header bytes, %d columns", n, end, cols);
      if (opens(name)) vf::fail("the file is accepted");
    }
    spit(file, good);
    vf::begin("the restored file, %d columns", cols);
    if (!opens(name)) vf::fail("is refused");
  }
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  if (vf::property("C15")) roundtrip();
  if (vf::property("C16")) { refusals(); files(); }
  return vf::finish();
}
