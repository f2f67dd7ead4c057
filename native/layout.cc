// C14 on real tables in a scratch directory: where the columns and blocks of a file are, and that each holds what was written in it.
#include "vf.h"
#include "bytepacker.h"
#include "dyscostman.h"
#include "dyscodatacolumn.h"
#include "dyscoweightcolumn.h"
#include <casacore/tables/Tables.h>
#include <dirent.h>
#include <fstream>
#include <map>
#include <memory>
#include <sys/stat.h>
using namespace casacore;
using namespace dyscostman;
typedef std::complex<float> cf;

static std::string dir;
static void wipe(const std::string& p) {
  if (DIR* d = opendir(p.c_str())) {
    while (dirent* e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") wipe(p + "/" + n);
    }
    closedir(d);
    rmdir(p.c_str());
  } else unlink(p.c_str());
}

static std::vector<unsigned char> content(DyscoStMan* m) {
  m->_fStream->flush();
  std::ifstream f(m->fileName().c_str(), std::ios::binary);
  return std::vector<unsigned char>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

template <class C, class T>
static void encode(DyscoStMan* m, C* c, size_t blk, int pol, int chan, int ant, int rows, uint64_t at, size_t size) {
  // what is written differs between two backgrounds exactly outside the region
  std::vector<unsigned char> res[2];
  const unsigned char bg[2] = {0x5a, 0xa5};
  for (int v = 0; v < 2; ++v) {
    std::vector<unsigned char> fill(m->_blockSize, bg[v]);
    for (uint64_t b = 0; b < 5; ++b) { m->_fStream->seekp(m->_headerSize + b * m->_blockSize); m->_fStream->write((char*)fill.data(), fill.size()); }
    m->_nBlocksInFile = 5;
    std::unique_ptr<TimeBlockBuffer<T>> buf(new TimeBlockBuffer<T>(pol, chan));
    std::vector<T> d(pol * chan);
    for (int r = 0; r < rows; ++r) {
      for (size_t i = 0; i < d.size(); ++i) d[i] = T(1.0f + r + 0.5f * i);
      buf->SetData(r, r % ant, (r + 1) % ant, d.data());
    }
    typename ThreadedDyscoColumn<T>::CacheItem item(std::move(buf));
    auto td = c->initializeEncodeThread();
    const size_t np = c->_shape[0], nc = c->_shape[1];
    size_t nsym = c->symbolCount(rows, np, nc), meta = c->metaDataFloatCount(rows, np, nc, c->_antennaCount);
    std::vector<unsigned char> packed(std::max<size_t>(size, 4 * meta + BytePacker::bufferSize(nsym, c->_bitsPerSymbol)));
    std::vector<unsigned> sym(nsym);
    // the same with the parts: metadata, then the packed symbols (threads are not seeded, so equal)
    std::vector<unsigned char> want(packed.size());
    auto td2 = c->initializeEncodeThread();
    std::unique_ptr<TimeBlockBuffer<T>> copy(new TimeBlockBuffer<T>(*item.encoder));
    std::vector<float> mb(meta);
    c->encode(td2.get(), copy.get(), mb.data(), sym.data(), c->_antennaCount);
    memcpy(want.data(), mb.data(), 4 * meta);
    BytePacker::pack(c->_bitsPerSymbol, want.data() + 4 * meta, sym.data(), nsym);
    want.resize(4 * meta + BytePacker::bufferSize(nsym, c->_bitsPerSymbol));
    c->encodeAndWrite(blk, item, packed.data(), sym.data(), td.get());
    res[v] = content(m);
    for (size_t i = 0; i < want.size() && at + i < res[v].size(); ++i) if (res[v][at + i] != want[i]) vf::fail("byte %zu of block %zu of the column is not that of the encoded block (%zu bytes of metadata, then %zu packed symbols)", i, blk, 4 * meta, nsym);
  }
  if (res[0].size() != res[1].size()) vf::fail("the file has another length");
  for (uint64_t i = 0; i < res[0].size(); ++i) {
    if (i < m->_headerSize) { if (res[0][i] != res[1][i]) vf::fail("byte %zu of the header is overwritten", (size_t)i); continue; }
    bool in = i >= at && i < at + size, wr = res[0][i] == res[1][i];
    if (in && !wr) vf::fail("encoding block %zu does not write byte %zu of the %zu bytes of the column", blk, (size_t)(i - at), size);
    if (!in && (res[0][i] != bg[0] || res[1][i] != bg[1])) vf::fail("encoding block %zu writes byte %zu of the file, outside of the region of the column [%zu, %zu)", blk, (size_t)i, (size_t)at, (size_t)(at + size));
  }
}

static void run(int i) {
  int data = vf::rnd(4), weights = data ? vf::rnd(2) : 1, pol = 1 + vf::rnd(4), chan = 1 + vf::rnd(5), rows = 1 + vf::rnd(i < 40 ? 6 : 40), ant = 2 + vf::rnd(12), nrm = vf::rnd(3);
  const int bits[] = {2, 3, 4, 6, 8, 10, 12, 16};
  int db = bits[vf::rnd(8)], wb = bits[vf::rnd(8)];
  vf::begin("%d data columns of %d bits, %d weight columns of %d bits, shape %d x %d, %d rows per block, %d antennas, normalization %s", data, db, weights, wb, pol, chan, rows, ant, nrm == 0 ? "AF" : nrm == 1 ? "RF" : "Row");
  TableDesc td;
  for (auto n : {"ANTENNA1", "ANTENNA2", "FIELD_ID", "DATA_DESC_ID"}) td.addColumn(ScalarColumnDesc<int>(n));
  td.addColumn(ScalarColumnDesc<double>("TIME"));
  IPosition shape(2, pol, chan);
  std::vector<std::string> names;
  for (int k = 0; k < data; ++k) { names.push_back("DATA" + std::to_string(k)); ArrayColumnDesc<cf> d(names.back(), "", "DyscoStMan", "ds", shape); d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape); td.addColumn(d); }
  for (int k = 0; k < weights; ++k) { names.push_back("WEIGHT_SPECTRUM"); ArrayColumnDesc<float> d(names.back(), "", "DyscoStMan", "ds", shape); d.setOptions(ColumnDesc::Direct | ColumnDesc::FixedShape); td.addColumn(d); }
  std::string path = dir + "/t";
  {
    SetupNewTable setup(path, td, Table::New);
    DyscoStMan d(db, wb, "ds");
    d.SetTruncatedGaussianDistribution(2.5);
    d.SetNormalization(nrm == 0 ? Normalization::kAF : nrm == 1 ? Normalization::kRF : Normalization::kRow);
    d.SetStaticSeed(true);
    for (auto& n : names) setup.bindColumn(n, d);
    Table t(setup, 0);
    DyscoStMan* m = dynamic_cast<DyscoStMan*>(t.findDataManager("ds"));
    if (!m) vf::fail("the storage manager is not found");
    m->initializeRowsPerBlock(rows, ant, true);
    size_t n = m->_columns.size();
    std::vector<uint64_t> off(n), size(n);
    uint64_t sum = 0;
    for (size_t k = 0; k < n; ++k) {
      off[k] = m->_columns[k]->OffsetInBlock();
      size[k] = m->_columns[k]->CalculateBlockSize(rows, ant);
      sum += size[k];
    }
    for (size_t k = 0; k < n; ++k) {
      if (off[k] + size[k] > m->_blockSize) vf::fail("column %zu ends behind the block: offset %zu, %zu bytes, block size %zu", k, (size_t)off[k], (size_t)size[k], (size_t)m->_blockSize);
      for (size_t j = 0; j < k; ++j) if (off[j] < off[k] + size[k] && off[k] < off[j] + size[j]) vf::fail("columns %zu and %zu overlap: offsets %zu and %zu, %zu and %zu bytes", j, k, (size_t)off[j], (size_t)off[k], (size_t)size[j], (size_t)size[k]);
    }
    // raw blocks in any order; the last bytes written in each place must be there
    std::vector<unsigned char> header = content(m);
    header.resize(std::min<size_t>(header.size(), m->_headerSize));
    std::map<std::pair<size_t, size_t>, std::vector<unsigned char>> model;
    size_t top = 0;
    for (int w = 0; w < 12; ++w) {
      size_t b = vf::rnd(5), k = vf::rnd(n);
      std::vector<unsigned char> x(size[k]);
      for (auto& y : x) y = vf::rnd(256);
      m->_columns[k]->writeCompressedData(b, x.data(), x.size());
      model[{b, k}] = x;
      top = std::max(top, b + 1);
      if (m->nBlocksInFile() != top) vf::fail("%zu blocks are counted after block %zu was written", (size_t)m->nBlocksInFile(), top - 1);
    }
    for (size_t b = 0; b < top; ++b) for (size_t k = 0; k < n; ++k) {
      std::vector<unsigned char> x(size[k], 77), w(size[k], 0);
      auto f = model.find({b, k});
      if (f != model.end()) w = f->second;
      m->_columns[k]->readCompressedData(b, x.data(), x.size());
      if (x != w) vf::fail("column %zu of block %zu does not hold what was written there", k, b);
    }
    std::vector<unsigned char> now = content(m);
    now.resize(std::min(now.size(), header.size()));
    if (now != header) vf::fail("the header is overwritten by blocks");
    // rows
    for (int x = 0; x < 50; ++x) {
      uint64_t r = vf::rnd(x < 25 ? 100 : 1000000), b = m->getBlockIndex(r), f = m->getRowIndex(b), q = m->getRowWithinBlock(r);
      if (f + q != r || q >= (uint64_t)rows || f != b * rows) vf::fail("row %zu is row %zu of block %zu, which begins at row %zu", (size_t)r, (size_t)q, (size_t)b, (size_t)f);
    }
    // what the encoder stores
    for (size_t k = 0; k < n; ++k) {
      size_t b = vf::rnd(3);
      uint64_t at = m->_headerSize + b * m->_blockSize + off[k];
      if (auto c = dynamic_cast<DyscoDataColumn*>(m->_columns[k].get())) encode<DyscoDataColumn, cf>(m, c, b, pol, chan, ant, rows, at, size[k]);
      else if (auto c = dynamic_cast<DyscoWeightColumn*>(m->_columns[k].get())) encode<DyscoWeightColumn, float>(m, c, b, pol, chan, ant, rows, at, size[k]);
    }
  }
  wipe(path);
}

int main(int argc, char** argv) {
  vf::init(argc, argv);
  std::cout.setstate(std::ios::failbit);
  register_dyscostman();
  char d[] = "/tmp/vflXXXXXX";
  if (!mkdtemp(d)) { printf("FAIL no scratch directory | input: -\n"); return 1; }
  dir = d;
  for (int i = 0; vf::more(); ++i) {
    if (!vf::thorough && i >= 400) break;
    run(i);
  }
  wipe(dir);
  return vf::finish();
}
