// C26: tables to bytes and back, as secret values.
#include "fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h"
#include "switch.h"
using namespace vf;
namespace sz = fbpcf::mpc_std_lib::unified_data_process::serialization;
using Col = sz::IColumnDefinition<0>;
using T = Col::SupportedColumnTypes;
using In = Col::InputColumnDataType;
using Out = Col::DeserializeType;
using Row = sz::RowStructureDefinition<0>;
using B = std::vector<unsigned char>;
using M = fbpcf::frontend::MPCTypes<0, true>;

struct Column { // values of any type, as numbers
  T type; std::vector<std::vector<int64_t>> v;
  std::vector<bool> b; std::vector<uint32_t> u32; std::vector<uint64_t> u64; std::vector<int32_t> i32; std::vector<int64_t> i64;
  std::vector<std::vector<uint32_t>> vu32; std::vector<std::vector<uint64_t>> vu64; std::vector<std::vector<int32_t>> vi32; std::vector<std::vector<int64_t>> vi64;
  bool array() const { return type >= T::UInt32Vec; }
  void fill() { // native vectors from v
    auto one = [&](auto& to) { to.clear(); for (auto& r : v) to.push_back(r.at(0)); };
    auto many = [&](auto& to) { to.clear(); for (auto& r : v) to.emplace_back(r.begin(), r.end()); };
    switch (type) {
      case T::Bit: one(b); break;
      case T::UInt32: one(u32); break;
      case T::UInt64: one(u64); break;
      case T::Int32: one(i32); break;
      case T::Int64: one(i64); break;
      case T::UInt32Vec: many(vu32); break;
      case T::UInt64Vec: many(vu64); break;
      case T::Int32Vec: many(vi32); break;
      default: many(vi64);
    }
  }
  In in() {
    switch (type) {
      case T::Bit: return std::ref(b);
      case T::UInt32: return std::ref(u32);
      case T::UInt64: return std::ref(u64);
      case T::Int32: return std::ref(i32);
      case T::Int64: return std::ref(i64);
      case T::UInt32Vec: return std::ref(vu32);
      case T::UInt64Vec: return std::ref(vu64);
      case T::Int32Vec: return std::ref(vi32);
      default: return std::ref(vi64);
    }
  }
};
static int64_t value(Rng& r, T t) {
  uint64_t x = r.oneIn(4) ? ~0ull >> r.below(64) : r.oneIn(3) ? 1ull << r.below(64) : r.oneIn(4) ? 0 : r();
  switch (t) {
    case T::Bit: return x & 1;
    case T::UInt32: case T::UInt32Vec: return (uint32_t)x;
    case T::Int32: case T::Int32Vec: return (int32_t)x;
    default: return (int64_t)x;
  }
}
using Table = std::map<std::string, Column>;
static std::unordered_map<std::string, In> inputs(Table& t) {
  std::unordered_map<std::string, In> m;
  for (auto& [k, c] : t) m.emplace(k, c.in());
  return m;
}
static Table gen(Rng& r, size_t rows, size_t pad, std::map<std::string, T>& layout, int large = 0) {
  Table t;
  size_t cols = r.oneIn(20) ? 0 : 1 + r.below(r.oneIn(4) ? 24 : 7);
  if (large == 3) cols = 130 + r.below(60);
  if (large == 1) cols = 3 + r.below(4);
  int style = large == 3 ? 0 : r.below(4); // many bits, one bit, no bits, any
  for (size_t i = 0; i < cols; i++) {
    T types[] = {T::Bit, T::UInt32, T::UInt64, T::Int32, T::Int64, T::UInt32Vec, T::UInt64Vec, T::Int32Vec, T::Int64Vec};
    T ty = style == 0 && !r.oneIn(4) ? T::Bit : types[style == 2 ? 1 + r.below(8) : r.below(9)];
    std::string name = r.oneIn(12) ? cat("packedBits", r.below(3)) : r.oneIn(5) ? std::string(r.below(4), 'a' + r.below(3)) : cat((char)('a' + r.below(26)), r.below(100));
    if (t.count(name)) continue;
    auto& c = t[name];
    c.type = ty;
    for (size_t k = 0; k < rows; k++) {
      c.v.emplace_back();
      for (size_t j = 0; j < (c.array() ? pad : 1); j++) c.v.back().push_back(value(r, ty));
    }
    c.fill();
    layout[name] = ty;
  }
  return t;
}
template <class F> static void refuse(const std::string& what, F f) {
  bool threw = false;
  try { f(); } catch (const std::exception&) { threw = true; }
  count("refusals");
  if (!threw) violation("misfit-accepted", what);
}
// opens a column; numbers by row
static std::vector<std::vector<int64_t>> open(const Out& o, T type, size_t rows, int to, bool& okType) {
  std::vector<std::vector<int64_t>> r(rows);
  auto add = [&](const auto& x) { auto v = x.openToParty(to).getValue(); for (size_t i = 0; i < rows; i++) r[i].push_back((int64_t)v.at(i)); };
  auto all = [&](const auto& xs) { for (auto& x : xs) add(x); };
  okType = true;
  switch (type) {
    case T::Bit: if (auto p = std::get_if<M::SecBool>(&o)) add(*p); else okType = false; break;
    case T::UInt32: if (auto p = std::get_if<M::SecUnsigned32Int>(&o)) add(*p); else okType = false; break;
    case T::UInt64: if (auto p = std::get_if<M::SecUnsigned64Int>(&o)) add(*p); else okType = false; break;
    case T::Int32: if (auto p = std::get_if<M::Sec32Int>(&o)) add(*p); else okType = false; break;
    case T::Int64: if (auto p = std::get_if<M::Sec64Int>(&o)) add(*p); else okType = false; break;
    case T::UInt32Vec: if (auto p = std::get_if<std::vector<M::SecUnsigned32Int>>(&o)) all(*p); else okType = false; break;
    case T::UInt64Vec: if (auto p = std::get_if<std::vector<M::SecUnsigned64Int>>(&o)) all(*p); else okType = false; break;
    case T::Int32Vec: if (auto p = std::get_if<std::vector<M::Sec32Int>>(&o)) all(*p); else okType = false; break;
    default: if (auto p = std::get_if<std::vector<M::Sec64Int>>(&o)) all(*p); else okType = false;
  }
  return r;
}
static std::vector<std::vector<bool>> bits(const std::vector<B>& rows, size_t width) {
  std::vector<std::vector<bool>> s(8 * width, std::vector<bool>(rows.size()));
  for (size_t i = 0; i < rows.size(); i++) for (size_t b = 0; b < 8 * width; b++) s[b][i] = rows[i].at(b / 8) >> (b % 8) & 1;
  return s;
}
static void table(const World& w, size_t id, int large = 0) {
  auto r = rng(cat("rows", w.str(), id, "/", large));
  size_t rows = 1 + r.below(r.oneIn(5) ? 60 : 8), pad = r.oneIn(8) ? 0 : 1 + r.below(5);
  if (large == 1) { rows = 257 + r.below(900); pad = 2; }
  if (large == 2) { rows = 3; pad = 65 + r.below(70); }
  if (large == 3) rows = 2;
  std::map<std::string, T> layout;
  Table t = gen(r, rows, pad, layout, large);
  std::string what;
  for (auto& [k, ty] : layout) what += cat(" ", k, ":", (int)ty);
  auto nm = cat("rows ", w.str(), " #", id, " ", rows, " rows padding ", pad, what);
  runCase(nm, [&] {
    Row def(layout, pad);
    size_t width = def.getRowSizeBytes(), least = 0, nbits = 0;
    for (auto& [k, ty] : layout) {
      size_t e = ty == T::UInt32 || ty == T::Int32 || ty == T::UInt32Vec || ty == T::Int32Vec ? 4 : 8;
      if (ty == T::Bit) nbits++;
      else least += e * (t[k].array() ? pad : 1);
    }
    if (width != least + (nbits + 7) / 8) violation("row-size", cat(nm, " declared ", width, " needed ", least + (nbits + 7) / 8));
    auto data = def.serializeDataAsBytesForUDP(inputs(t), rows);
    if (data.size() != rows) { violation("row-count", nm); return; }
    for (auto& d : data) if (d.size() != width) { violation("row-width", cat(nm, " declared ", width, " written ", d.size())); return; }
    for (auto& [k, c] : t) { auto before = c; c.fill(); if (before.b != c.b || before.u32 != c.u32 || before.vi64 != c.vi64 || before.vu32 != c.vu32) violation("input-changed", nm); }
    // every column owns its bits: changing it changes no bit another column may change
    std::vector<uint64_t> owner(8 * width, 0);
    uint64_t me = 0;
    for (auto& [k, c] : t) {
      me++;
      for (int rep = 0; rep < 2; rep++) {
        auto t2 = t;
        for (auto& row : t2[k].v) for (auto& x : row) x = c.type == T::Bit ? !x : rep ? ~x : value(r, c.type);
        t2[k].fill();
        auto d2 = def.serializeDataAsBytesForUDP(inputs(t2), rows);
        for (size_t i = 0; i < rows && i < d2.size(); i++)
          for (size_t b = 0; b < 8 * width; b++) {
            if ((data[i][b / 8] ^ d2[i].at(b / 8)) >> (b % 8) & 1) {
              count("bits_attributed");
              if (owner[b] && owner[b] != me) { violation("columns-overlap", cat(nm, " column ", k, " bit ", b)); b = 8 * width; break; }
              owner[b] = me;
            }
          }
      }
    }
    // tables that do not fit
    if (!t.empty()) {
      auto pick = [&] { auto it = t.begin(); std::advance(it, r.below(t.size())); return it->first; };
      auto k = pick();
      { auto m = inputs(t); m.erase(k); refuse(cat(nm, " without ", k), [&] { def.serializeDataAsBytesForUDP(m, rows); }); }
      { auto m = inputs(t); m.emplace("another", m.at(k)); refuse(cat(nm, " with another"), [&] { def.serializeDataAsBytesForUDP(m, rows); }); }
      { auto m = inputs(t); m.emplace("another", m.at(k)); m.erase(k); refuse(cat(nm, " with ", k, " renamed"), [&] { def.serializeDataAsBytesForUDP(m, rows); }); }
      { auto t2 = t; if (r.coin()) t2[k].v.pop_back(); else t2[k].v.push_back(t2[k].v[0]); t2[k].fill(); refuse(cat(nm, " rows of ", k), [&] { def.serializeDataAsBytesForUDP(inputs(t2), rows); }); }
      refuse(cat(nm, " one row more asked for"), [&] { def.serializeDataAsBytesForUDP(inputs(t), rows + 1); });
      refuse(cat(nm, " one row less asked for"), [&] { def.serializeDataAsBytesForUDP(inputs(t), rows - 1); });
      { auto t2 = t; T old = t2[k].type; t2[k].type = old == T::Bit ? T::UInt32 : old == T::Int32 ? T::UInt32 : old == T::Int64 ? T::UInt64 : old == T::UInt64 ? T::UInt32 : old == T::UInt32 ? T::UInt64 : old == T::Int32Vec ? T::UInt32Vec : T::Int32Vec;
        t2[k].v.assign(rows, {1}); t2[k].fill();
        refuse(cat(nm, " ", k, " of another type"), [&] { def.serializeDataAsBytesForUDP(inputs(t2), rows); }); }
      if (t[k].array()) { auto t2 = t; auto& a = t2[k].v[r.below(rows)]; if (a.empty() || r.coin()) a.push_back(0); else a.pop_back(); t2[k].fill(); refuse(cat(nm, " array of another length in ", k), [&] { def.serializeDataAsBytesForUDP(inputs(t2), rows); }); }
      if (def.serializeDataAsBytesForUDP(inputs(t), rows) != data) violation("not-repeatable", nm);
      { auto l = layout; l[k] = T::PackedBitField; refuse(cat(nm, " packed bits in a layout"), [&] { Row d(l, pad); }); }
    }
    if (!width) return;
    // and back
    int own = r.below(2), to = r.below(2);
    uint64_t noise = r();
    bool narrow = r.oneIn(3);
    onWorld(w, [&](int me, sched::IScheduler&) {
      bool plain = w.s == SchedKind::Plain;
      Rng x(noise + me);
      Row mine(layout, pad);
      if (mine.getRowSizeBytes() != width) violation("row-size", nm);
      auto s = bits(data, width);
      if (!plain && own != me) for (auto& v : s) for (size_t i = 0; i < v.size(); i++) v[i] = x.coin();
      Row::SecString str(s, own);
      if (narrow) {
        size_t cut = 1 + noise % (8 * width);
        auto s2 = s;
        s2.resize(s.size() - cut);
        if (!s2.empty()) refuse(cat(nm, " bits too few by ", cut), [&] { mine.deserializeUDPOutputIntoMPCTypes(Row::SecString(Row::SecString::ExtractedString(s2))); });
      }
      auto out = mine.deserializeUDPOutputIntoMPCTypes(str);
      if (out.size() != t.size()) violation("column-count", cat(nm, " ", out.size()));
      for (auto& [k, c] : t) {
        auto it = out.find(k);
        if (it == out.end()) { violation("column-missing", cat(nm, " ", k)); continue; }
        bool ok;
        auto got = open(it->second, c.type, rows, to, ok);
        if (!ok) { violation("column-type", cat(nm, " ", k)); continue; }
        if (!plain && me != to) continue;
        count("columns_compared");
        for (size_t i = 0; i < rows; i++) {
          count("values_compared", got[i].size());
          if (got[i] != c.v[i]) { violation("wrong-value", cat(nm, " column ", k, " row ", i, " got ", got[i].empty() ? 0 : got[i][0], " want ", c.v[i].empty() ? 0 : c.v[i][0])); break; }
        }
      }
      progress();
    });
  });
  distinct(nm);
}
// packed bit fields by themselves
static void packed(size_t id) {
  auto nm = cat("packed #", id);
  auto r = rng(nm);
  runCase(nm, [&] {
    size_t n = r.below(9), rows = 1 + r.below(20), off = r.below(5), width = off + 1 + r.below(4);
    std::vector<std::string> names;
    for (size_t i = 0; i < n; i++) names.push_back(cat("b", i));
    sz::PackedBitFieldColumn<0> c("pack", names);
    if (c.getSubColumnNames() != names || c.getColumnName() != "pack" || c.getColumnSizeBytes() != 1) violation("packed-meta", nm);
    std::vector<std::vector<bool>> v(rows, std::vector<bool>(n));
    for (auto& a : v) for (size_t i = 0; i < n; i++) a[i] = r.coin();
    std::vector<B> buf(rows, B(width, 0xa5));
    c.serializeColumnAsPlaintextBytes(std::ref(v), buf, off);
    for (auto& b : buf) for (size_t i = 0; i < width; i++) if (i != off && b[i] != 0xa5) violation("columns-overlap", nm);
    World w{SchedKind::Plain, EngineKind::Dummy, Alloc::Map, 2};
    onWorld(w, [&](int, sched::IScheduler&) {
      auto o = std::get<std::vector<M::SecBool>>(c.deserializeSharesToMPCType(buf, off));
      if (o.size() != n) { violation("packed-count", nm); return; }
      for (size_t i = 0; i < n; i++) {
        auto g = o[i].openToParty(0).getValue();
        for (size_t k = 0; k < rows; k++) { count("values_compared"); if (g.at(k) != v[k][i]) { violation("packed-value", cat(nm, " bit ", i, " row ", k)); return; } }
      }
    });
    auto few = v;
    few.pop_back();
    refuse(cat(nm, " too few rows"), [&] { c.serializeColumnAsPlaintextBytes(std::ref(few), buf, off); });
    auto more = v;
    more.push_back(v[0]);
    refuse(cat(nm, " too many rows"), [&] { c.serializeColumnAsPlaintextBytes(std::ref(more), buf, off); });
    auto wideRow = v;
    auto& a = wideRow[r.below(rows)];
    if (n && r.coin()) a.pop_back(); else a.push_back(true);
    refuse(cat(nm, " a row of another number of bits"), [&] { c.serializeColumnAsPlaintextBytes(std::ref(wideRow), buf, off); });
    while (names.size() <= 8) names.push_back("more");
    refuse(cat(nm, " nine bits in a byte"), [&] { sz::PackedBitFieldColumn<0> d("pack", names); });
  });
  distinct(nm);
}
void vfMain() {
  Switch::install<0>();
  World ws[] = {{SchedKind::Plain, EngineKind::Dummy, Alloc::Map, 2}, {SchedKind::NetPlain, EngineKind::Dummy, Alloc::Map, 2}, {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2}, {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2}};
  for (auto& w : ws)
    for (size_t k = 0; k < (w.s == SchedKind::Plain ? n(250, 3000) : n(40, 400)); k++) table(w, k);
  for (auto& w : ws) for (int large = 1; large <= 3; large++) for (size_t k = 0; k < n(w.s == SchedKind::Plain ? 3 : 1, 6); k++) table(w, k, large);
  for (size_t k = 0; k < n(60, 500); k++) packed(k);
}
