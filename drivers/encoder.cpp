// C22: breakdown numbering against a plain dictionary.
#include "fbpcf/mpc_std_lib/oram/encoder/IFilter.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramDecoder.h"
#include "fbpcf/mpc_std_lib/oram/encoder/OramEncoder.h"
#include "vf.h"
using namespace vf;
namespace om = fbpcf::mpc_std_lib::oram;
using Row = std::vector<uint32_t>;
using F = om::IFilter;
struct Fl { F::FilterType t; size_t col; std::vector<uint32_t> v; };
static bool pass(const Fl& f, const Row& r) {
  uint32_t x = r.at(f.col), y = f.v.empty() ? 0 : f.v[0];
  bool in = std::count(f.v.begin(), f.v.end(), x);
  switch (f.t) {
    case F::GT: return x > y;
    case F::LT: return x < y;
    case F::GTE: return x >= y;
    case F::LTE: return x <= y;
    case F::EQ: return x == y;
    case F::NEQ: return x != y;
    case F::SUBSET_OF: return in;
    default: return !in;
  }
}
static std::unique_ptr<F> make(const Fl& f) {
  if (f.t == F::SUBSET_OF || f.t == F::NOT_SUBSET_OF) return std::make_unique<om::VectorValueFilter>(f.t, f.col, f.v);
  return std::make_unique<om::SingleValueFilter>(f.t, f.col, f.v[0]);
}
static void one(size_t k, size_t large = 0) {
  auto r = rng(cat("encoder", k, "/", large));
  size_t cols = r.oneIn(15) ? 0 : 1 + r.below(5), mixed = r.oneIn(5); // mixed: rows of several lengths
  int style = large ? 1 : r.below(4);
  if (large) cols = 2 + r.below(2);
  auto val = [&]() -> uint32_t {
    switch (style) {
      case 0: return r.below(3);
      case 1: return large ? r.below(1u << 20) : r.edgy(32);
      case 2: return r.oneIn(2) ? r.below(12) : 10 * r.below(12) + 1; // 1,11 / 11,1 and the like
      default: return r.oneIn(3) ? 0xffffffffu - r.below(2) : r.below(2);
    }
  };
  std::vector<Fl> fl;
  if (cols && large < 300) for (size_t i = r.below(4); i-- > 0;) {
    Fl f{(F::FilterType)r.below(8), r.below(cols), {val()}};
    if (f.t >= F::SUBSET_OF) { if (r.oneIn(5)) f.v.clear(); for (size_t q = r.below(4); q-- > 0;) f.v.push_back(val()); }
    fl.push_back(f);
  }
  auto tag = cat("encoder #", k, " columns ", cols, " filters ", fl.size(), " style ", style);
  runCase(tag, [&] {
    auto fs = std::make_unique<std::vector<std::unique_ptr<F>>>();
    for (auto& f : fl) fs->push_back(make(f));
    om::OramEncoder enc(std::move(fs));
    if (enc.getOramSize() != 0) violation("size", tag);
    std::map<Row, uint32_t> num;
    std::map<uint32_t, Row> back;
    std::optional<uint32_t> filtered;
    std::vector<Row> old;
    std::set<uint32_t> used;
    size_t batches = large ? 2 : 1 + r.below(5);
    for (size_t b = 0; b < batches; b++) {
      std::vector<Row> rows(large && b == 0 ? large : r.oneIn(10) ? 0 : r.below(r.oneIn(10) ? 400 : 40));
      for (auto& x : rows) {
        if (old.size() && r.oneIn(large && b == 0 ? 50 : 3)) { x = old[r.below(old.size())]; continue; }
        x.resize(mixed ? cols + r.below(3) : cols);
        for (auto& e : x) e = val();
        old.push_back(x);
      }
      auto in = rows;
      auto got = enc.generateORAMIndexes(rows);
      if (rows != in) violation("input-changed", tag);
      if (got.size() != rows.size()) { violation("count", cat(tag, " ", got.size(), " numbers for ", rows.size(), " rows")); return; }
      for (size_t i = 0; i < rows.size(); i++) {
        count("rows_encoded");
        bool keep = true;
        for (auto& f : fl) keep = keep && pass(f, rows[i]);
        used.insert(got[i]);
        if (!keep) {
          count("rows_filtered");
          if (!filtered) filtered = got[i];
          if (*filtered != got[i] || back.count(got[i])) violation("filtered-number", cat(tag, " row ", str(rows[i]), " number ", got[i]));
          continue;
        }
        auto it = num.find(rows[i]);
        if (it == num.end()) {
          if (back.count(got[i]) || filtered == got[i]) violation("number-shared", cat(tag, " row ", str(rows[i]), " number ", got[i]));
          num[rows[i]] = got[i];
          back[got[i]] = rows[i];
        } else if (it->second != got[i]) violation("renumbered", cat(tag, " row ", str(rows[i]), " was ", it->second, " now ", got[i]));
      }
      if (enc.getOramSize() != used.size()) violation("size", cat(tag, " size ", enc.getOramSize(), " numbers in use ", used.size()));
      if (!used.empty() && *used.rbegin() + 1 != used.size()) violation("not-dense", cat(tag, " highest ", *used.rbegin(), " of ", used.size()));
      if (b + 1 < batches && !r.oneIn(3)) continue;
      // decode, directly and after being written out
      auto cfg = enc.exportMappingConfig();
      auto text = cfg->serializeAsString();
      auto again = om::OramMappingConfig::fromSerializedString(text);
      auto same = [&](om::OramMappingConfig& c, const char* how) {
        if (c.getBreakdownMapping() != cfg->getBreakdownMapping() || c.wereBreakdownsFiltered() != cfg->wereBreakdownsFiltered() || c.getFilterIndex() != cfg->getFilterIndex()) violation("mapping-changed", cat(tag, " ", how));
        count("mappings_reread");
      };
      same(*again, "string");
      std::vector<std::unique_ptr<om::OramMappingConfig>> cs;
      cs.push_back(std::move(again));
      if (k % 4 == 0) {
        auto dir = scratchDir();
        auto p = dir + "/map";
        cfg->writeMappingToFile(p);
        cs.push_back(om::OramMappingConfig::readMappingFromFile(p));
        same(*cs.back(), "file");
      }
      cs.push_back(enc.exportMappingConfig());
      if (cfg->wereBreakdownsFiltered() != filtered.has_value()) violation("filtered-flag", tag);
      for (auto& c : cs) {
        om::OramDecoder dec(std::move(c));
        std::vector<uint32_t> ask;
        std::vector<Row> want;
        for (auto u : used) { ask.push_back(u); want.push_back(filtered == u ? Row{} : back[u]); }
        if (ask.size() > 1) { size_t i = r.below(ask.size()); ask.push_back(ask[i]); want.push_back(want[i]); }
        auto rows2 = dec.decodeORAMIndexes(ask);
        if (rows2 != want) violation("decoded-differently", tag);
        count("rows_decoded", want.size());
        for (uint32_t bad : {(uint32_t)used.size(), (uint32_t)used.size() + 7, 0xffffffffu}) {
          bool threw = false;
          auto q = ask;
          q.insert(q.begin() + r.below(q.size() + 1), bad);
          try { dec.decodeORAMIndexes(q); } catch (const std::exception&) { threw = true; }
          count("refusals");
          if (!threw) violation("unknown-number-decoded", cat(tag, " number ", bad));
        }
      }
    }
  });
  distinct(tag);
}
static void filters() {
  auto r = rng("filters");
  for (size_t k = 0; k < n(500, 5000); k++) runCase(cat("filter ", k), [&] {
    Fl f{(F::FilterType)r.below(8), r.below(4), {(uint32_t)r.edgy(32), (uint32_t)r.edgy(32)}};
    if (f.t < F::SUBSET_OF) f.v.resize(1);
    auto x = make(f);
    Row row(r.below(6));
    for (auto& e : row) e = r.coin() ? f.v[r.below(f.v.size())] + r.below(3) - 1 : r.edgy(32);
    bool threw = false, got = false;
    try { got = x->apply(row); } catch (const std::exception&) { threw = true; }
    count("filters_applied");
    if (threw != (row.size() <= f.col)) violation("filter-column", cat("column ", f.col, " of ", row.size()));
    else if (!threw && got != pass(f, row)) violation("filter-result", cat("type ", (int)f.t, " row ", str(row), " value ", str(f.v)));
    bool kind = false;
    try { if (f.t >= F::SUBSET_OF) om::SingleValueFilter(f.t, 0, 1); else om::VectorValueFilter(f.t, 0, {1}); } catch (const std::exception&) { kind = true; }
    if (!kind) violation("filter-kind-accepted", cat((int)f.t));
  });
  distinct("filters");
}
void vfMain() {
  for (size_t k = 0; k < n(600, 30000); k++) one(k);
  for (size_t large : {260, 1100, 5000, 70000}) for (size_t k = 0; k < n(1, 3); k++) one(4 * k, large);
  filters();
}
