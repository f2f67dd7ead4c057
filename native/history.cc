// C17, C18 on real tables in a scratch directory: random histories of row writes and reads against a plain array.
#include "vf.h"
#include "dyscostman.h"
#include "dyscodatacolumn.h"
#include "dyscoweightcolumn.h"
#include <casacore/tables/Tables.h>
#include <dirent.h>
#include <memory>
#include <sys/stat.h>
using namespace casacore;
using namespace dyscostman;
typedef std::complex<float> cf;

static std::string dir;
static void wipe(const std::string& p) {
  if (DIR* d = opendir(p.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") wipe(p + "/" + n);
    }
    closedir(d);
    rmdir(p.c_str());
  } else unlink(p.c_str());
}

struct Conf {
  int base, blocks, pol, chan, dist, nrm, data, weights;
  bool stat;
};

struct Hist {
  Conf c;
  std::string path;
  std::unique_ptr<Table> t;
  std::vector<std::unique_ptr<ArrayColumn<cf>>> dc;
  std::unique_ptr<ArrayColumn<float>> wc;
  // model: version written last, 0 never; per column, per row
  std::vector<std::vector<int>> ver;
  int rows, vcount = 0;
  std::string log;

  int ncol() const { return c.data + c.weights; }
  std::string colname(int k) const { return k < c.data ? (k ? "DATA" + std::to_string(k) : "DATA") : "WEIGHT_SPECTRUM"; }
  cf value(int k, int r, int v, int i) const { return v ? cf(10.0f * (v % 13 + 1) + (r % 7) + 0.25f * (i % 3), -5.0f * (v % 11 + 1) - (r % 5)) : cf(0); }
  float wvalue(int k, int r, int v, int i) const { return v ? 3.0f * (v % 13 + 1) + (r % 7) + 0.25f * (i / c.pol % 3) : 0; }

  void create() {
    TableDesc td;
    for (auto n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID"}) td.addColumn(ScalarColumnDesc<int>(n));
    td.addColumn(ScalarColumnDesc<double>("TIME"));
    IPosition shape(2, c.pol, c.chan);
    for (int k = 0; k < c.data; ++k) { ArrayColumnDesc<cf> d(colname(k), "", "DyscoStMan", "ds", shape); d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape); td.addColumn(d); }
    if (c.weights) { ArrayColumnDesc<float> d("WEIGHT_SPECTRUM", "", "DyscoStMan", "ds", shape); d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape); td.addColumn(d); }
    SetupNewTable setup(path, td, Table::New);
    DyscoStMan d(12, 12, "ds");
    if (c.dist == 0) d.SetGaussianDistribution();
    else if (c.dist == 1) d.SetUniformDistribution();
    else d.SetTruncatedGaussianDistribution(2.5);
    d.SetNormalization(c.nrm == 0 ? Normalization::kAF : c.nrm == 1 ? Normalization::kRF : Normalization::kRow);
    d.SetStaticSeed(c.stat);
    for (int k = 0; k < ncol(); ++k) setup.bindColumn(colname(k), d);
    t.reset(new Table(setup, rows));
    ScalarColumn<int> a1(*t, "ANTENNA1"), a2(*t, "ANTENNA2"), fi(*t, "FIELD_ID"), dd(*t, "DATA_DESC_ID");
    ScalarColumn<double> ti(*t, "TIME");
    for (int r = 0; r < rows; ++r) {
      int b = r % c.base, x = 0, y = 0;
      for (y = 0; b > y; ++y) b -= y + 1;
      x = b;
      a1.put(r, x); a2.put(r, y + 1); fi.put(r, 0); dd.put(r, 0); ti.put(r, 4e9 + 10 * (r / c.base));
    }
    attach();
  }
  void attach() {
    dc.clear();
    for (int k = 0; k < c.data; ++k) dc.emplace_back(new ArrayColumn<cf>(*t, colname(k)));
    if (c.weights) wc.reset(new ArrayColumn<float>(*t, "WEIGHT_SPECTRUM"));
  }
  void close() { dc.clear(); wc.reset(); t.reset(); }
  void reopen(bool rw) {
    close();
    t.reset(new Table(path, rw ? Table::Update : Table::Old));
    attach();
  }
  void put(int k, int r) {
    int v = ++vcount;
    note("put %s row %d; ", colname(k).c_str(), r);
    IPosition shape(2, c.pol, c.chan);
    if (k < c.data) {
      Array<cf> a(shape);
      int i = 0;
      for (auto& x : a) x = value(k, r, v, i++);
      dc[k]->put(r, a);
    } else {
      Array<float> a(shape);
      int i = 0;
      for (auto& x : a) x = wvalue(k, r, v, i++);
      wc->put(r, a);
    }
    ver[k][r] = v;
  }
  bool blockwritten(int k, int r) const {
    for (int x = r / c.base * c.base; x < (r / c.base + 1) * c.base; ++x) if (ver[k][x]) return true;
    return false;
  }
  void get(int k, int r) {
    // a row that was not written, in a block that was, holds whatever the encoder made of it
    if (!ver[k][r] && blockwritten(k, r)) return;
    note("get %s row %d; ", colname(k).c_str(), r);
    int i = 0, v = ver[k][r];
    double tol = v ? 2.5 : 0;
    if (k < c.data) {
      Array<cf> a = dc[k]->get(r);
      for (auto& x : a) {
        cf w = value(k, r, v, i++);
        if (!(std::abs(x.real() - w.real()) <= tol && std::abs(x.imag() - w.imag()) <= tol)) vf::fail("%s row %d holds (%g,%g), written last: (%g,%g)", colname(k).c_str(), r, x.real(), x.imag(), w.real(), w.imag());
      }
    } else {
      Array<float> a = wc->get(r);
      for (auto& x : a) {
        float w = wvalue(k, r, v, i++);
        if (!(std::fabs(x - w) <= (v ? 0.7 : 0))) vf::fail("%s row %d holds %g, written last: %g", colname(k).c_str(), r, x, w);
      }
    }
  }
  template <typename... A>
  void note(const char* f, A... a) { vf::more_input(f, a...); }
};

static void run(const Conf& c, int nops) {
  Hist h;
  h.c = c;
  h.rows = c.base * c.blocks;
  h.path = dir + "/t";
  h.ver.assign(c.data + c.weights, std::vector<int>(h.rows, 0));
  vf::begin("%d rows per block, %d blocks, shape %d x %d, distribution %d, normalization %s, %d data columns%s%s: ", c.base, c.blocks, c.pol, c.chan, c.dist, c.nrm == 0 ? "AF" : c.nrm == 1 ? "RF" : "Row", c.data, c.weights ? ", weights" : "", c.stat ? ", one thread" : "");
  h.create();
  // the first block in order, then one row of the second
  bool each = vf::rnd(2);
  if (each) for (int r = 0; r <= c.base; ++r) for (int k = 0; k < h.ncol(); ++k) h.put(k, r);
  else for (int k = 0; k < h.ncol(); ++k) for (int r = 0; r <= c.base; ++r) h.put(k, r);
  int last = 0;
  for (int i = 0; i < nops; ++i) {
    int k = vf::rnd(h.ncol()), what = vf::rnd(16);
    int r = vf::rnd(4) ? std::min<int>(h.rows - 1, last / c.base * c.base + vf::rnd(2 * c.base)) : vf::rnd(h.rows);
    last = r;
    if (what < 4) h.put(k, r);
    else if (what < 7) { for (int x = r / c.base * c.base; x < (r / c.base + 1) * c.base; ++x) h.put(k, x); }
    else if (what < 14) h.get(k, r);
    else if (what == 14) { h.note("reopen; "); h.reopen(true); }
    else for (int x = 0; x < h.rows; ++x) h.get(k, x);
  }
  for (int k = 0; k < h.ncol(); ++k) for (int x = 0; x < h.rows; ++x) h.get(k, x);
  h.note("reopen to read; ");
  h.reopen(false);
  for (int k = 0; k < h.ncol(); ++k) for (int x = 0; x < h.rows; ++x) h.get(k, x);
  h.close();
  wipe(h.path);
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  std::cout.setstate(std::ios::failbit);
  register_dyscostman();
  char d[] = "/tmp/vfiXXXXXX";
  if (!mkdtemp(d)) { printf("FAIL no scratch directory | input: -\n"); return 1; }
  dir = d;
  const int bases[] = {1, 3, 6, 2, 10};
  for (int i = 0; vf::more(); ++i) {
    if (!vf::thorough && i >= 400) break;
    Conf c;
    c.base = bases[vf::rnd(5)]; c.blocks = 2 + vf::rnd(i < 50 ? 4 : 12); c.pol = 1 + vf::rnd(4); c.chan = 1 + vf::rnd(4); c.dist = 1 + vf::rnd(2); c.nrm = vf::rnd(3);
    c.data = vf::rnd(4) ? 1 : 2; c.weights = vf::rnd(2); c.stat = vf::rnd(4) == 0;
    run(c, 2 + vf::rnd(i < 50 ? 12 : 60));
  }
  wipe(dir);
  return vf::finish();
}
