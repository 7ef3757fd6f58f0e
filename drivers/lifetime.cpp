// C03: storage and handles against a shadow of who holds what.
#include <unordered_map>
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/scheduler/IWireKeeper.h"
#include "fbpcf/scheduler/UnorderedMapAllocator.h"
#include "fbpcf/scheduler/VectorArenaAllocator.h"
#include "switch.h"
using namespace vf;
namespace fr = fbpcf::frontend;
void allocators();
void keepers();
void handles();
void programs();
void misuse();
void vfMain() {
  allocators();
  keepers();
  Switch::install<0>();
  handles();
  programs();
  misuse();
}

template <class T, class A> static void allocator(const char* nm, bool safe, std::function<T(Rng&)> draw, size_t steps) {
  for (size_t rep = 0; rep < n(3, 40); rep++) {
    Rng r = rng(cat(nm, rep));
    runCase(cat("allocator ", nm, " ", rep), [&] {
      A a;
      if (a.isSafe() != safe) violation("isSafe", nm);
      std::unordered_map<uint64_t, T> shadow;
      std::vector<uint64_t> ids;
      std::vector<uint64_t> gone;
      int grow = r.below(3); // phases with mostly allocation, then mostly release
      size_t peak = 0;
      if (rep == 0) // a population beyond 2^16 and 2^17, before the mix
        for (size_t k = 0; k < 132000; k++) {
          T v = draw(r), c = v;
          uint64_t id = a.allocate(std::move(v));
          if (!shadow.emplace(id, c).second) { violation("id-in-use", cat(nm, " id ", id, " handed out twice at population ", k)); break; }
          ids.push_back(id);
        }
      for (size_t k = 0; k < steps; k++) {
        if (k % (steps / 6 + 1) == 0) grow = r.below(3);
        bool alloc = ids.empty() || r.below(10) < (grow == 0 ? 9 : grow == 1 ? 5 : 2);
        if (alloc) {
          T v = draw(r), c = v;
          uint64_t id = a.allocate(std::move(v));
          if (!shadow.emplace(id, c).second) violation("id-in-use", cat(nm, " id ", id, " handed out twice"));
          else ids.push_back(id);
        } else {
          size_t i = r.below(ids.size());
          a.free(ids[i]);
          shadow.erase(ids[i]);
          gone.push_back(ids[i]);
          ids[i] = ids.back();
          ids.pop_back();
        }
        peak = std::max(peak, ids.size());
        if (!ids.empty() && r.oneIn(2)) {
          uint64_t id = ids[r.below(ids.size())];
          if (r.oneIn(3)) { T v = draw(r); a.getWritableReference(id) = v; shadow[id] = v; }
          count("allocator_reads");
          if (!(a.get(id) == shadow[id])) violation("stored-value", cat(nm, " id ", id, " step ", k));
        }
        if (safe && !gone.empty() && r.oneIn(8)) {
          uint64_t id = gone[r.below(gone.size())];
          if (!shadow.count(id)) {
            count("released_reads");
            int threw = 0;
            try { a.get(id); } catch (const std::exception&) { threw++; }
            try { a.getWritableReference(id); } catch (const std::exception&) { threw++; }
            if (threw != 2) violation("released-value-readable", cat(nm, " id ", id));
          }
        }
      }
      for (auto id : ids) if (!(a.get(id) == shadow[id])) violation("stored-value", cat(nm, " id ", id, " at the end"));
      distinct(cat(nm, rep));
      count("values_allocated_at_once", peak);
    });
  }
}
void allocators() {
  using fbpcf::scheduler::UnorderedMapAllocator;
  using fbpcf::scheduler::VectorArenaAllocator;
  std::function<uint64_t(Rng&)> di = [](Rng& r) { return r(); };
  std::function<std::vector<bool>(Rng&)> db = [](Rng& r) { return r.bits(r.below(20)); };
  size_t st = n(9000, 60000);
  allocator<uint64_t, VectorArenaAllocator<uint64_t, false>>("arena", true, di, st);
  allocator<uint64_t, VectorArenaAllocator<uint64_t, true>>("arena-unsafe", false, di, st);
  allocator<uint64_t, UnorderedMapAllocator<uint64_t>>("map", true, di, st);
  allocator<std::vector<bool>, VectorArenaAllocator<std::vector<bool>, false>>("arena-vec", true, db, st);
  allocator<std::vector<bool>, VectorArenaAllocator<std::vector<bool>, true>>("arena-unsafe-vec", false, db, st);
  allocator<std::vector<bool>, UnorderedMapAllocator<std::vector<bool>>>("map-vec", true, db, st);
}

// ---- the wire keeper ---------------------------------------------------------
using sched::IScheduler;
using BW = IScheduler::WireId<IScheduler::Boolean>;
using IW = IScheduler::WireId<IScheduler::Arithmetic>;
struct Rec { std::vector<uint64_t> v; uint32_t level; int refs; size_t size; };
template <class W, bool isInt, bool batch> struct Keep {
  sched::IWireKeeper& k;
  Rng& r;
  std::string tag;
  bool safe;
  std::unordered_map<uint64_t, Rec> live;
  std::vector<uint64_t> ids, gone;
  auto vec(const std::vector<uint64_t>& v) { if constexpr (isInt) return v; else return std::vector<bool>(v.begin(), v.end()); }
  std::vector<uint64_t> read(W w) {
    if constexpr (isInt && batch) { auto& x = k.getBatchIntegerValue(w); return x; }
    else if constexpr (isInt) return {k.getIntegerValue(w)};
    else if constexpr (batch) { auto& x = k.getBatchBooleanValue(w); return std::vector<uint64_t>(x.begin(), x.end()); }
    else return {k.getBooleanValue(w)};
  }
  void write(W w, const std::vector<uint64_t>& v) {
    if constexpr (isInt && batch) { if (r.coin()) k.setBatchIntegerValue(w, v); else k.getWritableBatchIntegerValue(w) = v; }
    else if constexpr (isInt) k.setIntegerValue(w, v[0]);
    else if constexpr (batch) { if (r.coin()) k.setBatchBooleanValue(w, vec(v)); else k.getWritableBatchBooleanValue(w) = vec(v); }
    else k.setBooleanValue(w, v[0]);
  }
  uint32_t level(W w) { if constexpr (batch) return k.getBatchFirstAvailableLevel(w); else return k.getFirstAvailableLevel(w); }
  void setLevel(W w, uint32_t l) { if constexpr (batch) k.setBatchFirstAvailableLevel(w, l); else k.setFirstAvailableLevel(w, l); }
  void up(W w) { if constexpr (batch) k.increaseBatchReferenceCount(w); else k.increaseReferenceCount(w); }
  void down(W w) { if constexpr (batch) k.decreaseBatchReferenceCount(w); else k.decreaseReferenceCount(w); }
  std::vector<uint64_t> draw() {
    std::vector<uint64_t> v(batch ? r.below(6) : 1);
    for (auto& e : v) e = isInt ? r.edgy() : r.below(2);
    return v;
  }
  void step() {
    int a = ids.empty() ? 0 : r.below(10);
    if (a < 3) {
      auto v = draw();
      uint32_t l = r.oneIn(20) ? r.below(1u << 31) : r.below(5);
      size_t sz = r.oneIn(20) ? r.below(1u << 31) : r.below(30);
      W w;
      if constexpr (isInt && batch) w = k.allocateBatchIntegerValue(v, sz, l);
      else if constexpr (isInt) w = k.allocateIntegerValue(v[0], l);
      else if constexpr (batch) w = k.allocateBatchBooleanValue(vec(v), sz, l);
      else w = k.allocateBooleanValue(v[0], l);
      if (!live.emplace(w.getId(), Rec{v, l, 1, sz}).second) violation("id-in-use", cat(tag, " wire ", w.getId()));
      else ids.push_back(w.getId());
      return;
    }
    size_t i = r.below(ids.size());
    uint64_t id = ids[i];
    W w(id);
    Rec& x = live[id];
    if (a < 5) {
      up(w); x.refs++;
      if (r.oneIn(300)) { // many holders at once
        for (int m = 0; m < 66000; m++) up(w);
        look(id);
        for (int m = 0; m < 66000; m++) down(w);
      }
    }
    else if (a < 8) {
      down(w);
      if (--x.refs == 0) { live.erase(id); gone.push_back(id); ids[i] = ids.back(); ids.pop_back(); }
    } else if (a == 8) { x.v = draw(); write(w, x.v); }
    else { x.level = r.oneIn(20) ? r.below(1u << 31) : r.below(9); setLevel(w, x.level); }
    if (!ids.empty()) look(ids[r.below(ids.size())]);
    if (safe && !gone.empty() && r.oneIn(6)) {
      uint64_t g = gone[r.below(gone.size())];
      if (!live.count(g)) bad(W(g));
      bad(W(10000000 + r.below(1000)));
    }
  }
  void look(uint64_t id) {
    W w(id);
    Rec& x = live[id];
    count("wire_reads");
    if (read(w) != x.v) violation("stored-value", cat(tag, " wire ", id, " has ", str(read(w)), " want ", str(x.v)));
    if (level(w) != x.level) violation("stored-level", cat(tag, " wire ", id));
    if constexpr (batch) if (k.getBatchSize(w) != x.size) violation("stored-size", cat(tag, " wire ", id));
  }
  void bad(W w) {
    int threw = 0;
    try { read(w); } catch (const std::exception&) { threw++; }
    try { down(w); } catch (const std::exception&) { threw++; }
    try { up(w); } catch (const std::exception&) { threw++; }
    try { write(w, draw()); } catch (const std::exception&) { threw++; }
    try { level(w); } catch (const std::exception&) { threw++; }
    count("unallocated_uses");
    if (threw != 5) violation("unallocated-accepted", cat(tag, " wire ", w.getId(), ": ", threw, " of 5 uses refused"));
  }
};
void keepers() {
  for (int a = 0; a < 3; a++)
    for (size_t rep = 0; rep < n(4, 60); rep++) {
      std::string nm = cat("keeper ", name((Alloc)a), " ", rep);
      runCase(nm, [&] {
        Rng r = rng(nm);
        auto k = wireKeeper((Alloc)a);
        bool safe = (Alloc)a != Alloc::ArenaUnsafe;
        Keep<BW, false, false> b{*k, r, nm + " bool", safe};
        Keep<BW, false, true> bb{*k, r, nm + " bool[]", safe};
        Keep<IW, true, false> i{*k, r, nm + " int", safe};
        Keep<IW, true, true> ib{*k, r, nm + " int[]", safe};
        uint64_t most = 0;
        for (size_t s = 0; s < n(9000, 40000); s++) {
          switch (r.below(4)) { case 0: b.step(); break; case 1: bb.step(); break; case 2: i.step(); break; default: ib.step(); }
          uint64_t live = b.live.size() + bb.live.size() + i.live.size() + ib.live.size();
          most = std::max(most, live);
          auto st = k->getWireStatistics();
          if (st.first - st.second != live) { violation("live-count", cat(nm, " step ", s, ": ", st.first, "-", st.second, " want ", live)); return; }
        }
        for (auto x : b.ids) b.look(x);
        for (auto x : bb.ids) bb.look(x);
        for (auto x : i.ids) i.look(x);
        for (auto x : ib.ids) ib.look(x);
        distinct(nm);
        if (!rep) sample(cat(nm, ": up to ", most, " live values"));
      });
    }
}

// ---- handles -------------------------------------------------------------------
template <bool batch> struct Handles {
  using B = fr::Bit<true, 0, batch>;
  using V = std::vector<uint64_t>;
  struct Slot { B b; int val = -1; }; // val: index into vals, -1 = holds nothing
  sched::IScheduler& s;
  int me; // -1 in the clear
  bool lazy;
  Rng r, noise;
  std::string tag;
  std::vector<B> b; // handles in a vector that grows and shrinks
  std::vector<int> val;
  std::vector<V> vals;
  size_t k;
  std::vector<std::function<void()>> later;
  auto rawb(const V& v) { if constexpr (batch) return std::vector<bool>(v.begin(), v.end()); else return (bool)v[0]; }
  V toV(bool x) { return {x}; }
  V toV(const std::vector<bool>& x) { return V(x.begin(), x.end()); }
  int fresh(V v) { vals.push_back(v); return vals.size() - 1; }
  B input(const V& v) {
    int o = r.below(2);
    V w = v;
    if (me >= 0 && o != me) for (auto& e : w) e = noise.below(2);
    return B(rawb(w), o);
  }
  V draw() { V v(k); for (auto& e : v) e = r.below(2); return v; }
  int pick() { // a slot that holds something
    std::vector<int> c;
    for (size_t i = 0; i < val.size(); i++) if (val[i] >= 0) c.push_back(i);
    return c.empty() ? -1 : c[r.below(c.size())];
  }
  void put(int d, const V& v) { val[d] = fresh(v); }
  void see(int i) {
    int to = r.below(2);
    auto o = b[i].openToParty(to);
    V want = vals[val[i]];
    auto f = [this, o, want, to, i] {
      V got = toV(o.getValue());
      count("handles_read");
      if (me < 0 || me == to) check(got == want, "value-changed", [&] { return cat(tag, " slot ", i, " got ", str(got), " want ", str(want)); });
    };
    if (r.coin()) f(); else later.push_back(f);
  }
  void step() {
    if (b.size() < 3) { b.push_back(input([&] { auto v = draw(); val.push_back(fresh(v)); return v; }())); return; }
    int d = r.below(b.size()), p = pick(), q = pick();
    count("handle_operations");
    if (p < 0) { auto v = draw(); b[d] = input(v); put(d, v); return; }
    switch (r.below(17)) {
      case 0: { auto v = draw(); b[d] = input(v); put(d, v); break; }
      case 1: { V v = vals[val[p]]; for (size_t i = 0; i < k; i++) v[i] ^= vals[val[q]][i]; b[d] = b[p] ^ b[q]; put(d, v); break; }
      case 2: { V v = vals[val[p]]; for (size_t i = 0; i < k; i++) v[i] &= vals[val[q]][i]; b[d] = b[p] & b[q]; put(d, v); break; }
      case 3: { V v = vals[val[p]]; for (auto& e : v) e ^= 1; b[d] = !b[p]; put(d, v); break; }
      case 4: b[d] = b[p]; val[d] = val[p]; break;
      case 5: { // moving leaves the source empty; moving onto itself leaves it alone
        int t = val[p];
        b[d] = std::move(b[p]);
        if (d != p) val[p] = -1;
        val[d] = t;
        break;
      }
      case 6: { B& x = b[p]; b[p] = x; break; }                 // onto itself
      case 7: { B& x = b[p]; x = std::move(b[p]); break; }
      case 8: b[d] = B(); val[d] = -1; break;
      case 9: { B c(b[p]); b.push_back(std::move(c)); val.push_back(val[p]); break; }
      case 10: if (b.size() > 4) { b.erase(b.begin() + d); val.erase(val.begin() + d); } break;
      case 11: std::swap(b[p], b[d]); std::swap(val[p], val[d]); break;
      case 12: { b.insert(b.begin() + d, b[p]); val.insert(val.begin() + d, int(val[p])); break; }
      case 13: { // a round trip through extracted shares
        if (me >= 0 && !lazy && r.coin()) break;
        int t = val[p];
        auto e = b[p].extractBit();
        b[d] = B(std::move(e));
        put(d, vals[t]);
        break;
      }
      case 14: { auto v = draw(); int o = r.below(2); V w = v; if (me >= 0 && o != me) for (auto& e : w) e = noise.below(2); b[d].privateInput(rawb(w), o); put(d, v); break; }
      case 15: { // composite with results taken apart
        size_t m = 1 + r.below(4);
        std::vector<B> rs; std::vector<V> want;
        for (size_t i = 0; i < m; i++) { int x = pick(); rs.push_back(b[x]); V v = vals[val[p]]; for (size_t j = 0; j < k; j++) v[j] &= vals[val[x]][j]; want.push_back(v); }
        auto out = b[p] & rs;
        for (size_t i = 0; i < m; i++) if (r.coin()) { b.push_back(out[i]); val.push_back(fresh(want[i])); }
        break;
      }
      default: see(p);
    }
    if (b.size() > 40) { b.resize(20); val.resize(20); b.shrink_to_fit(); }
  }
  size_t distinctLive() { std::set<int> x; for (int v : val) if (v >= 0) x.insert(v); return x.size(); }
};
template <bool batch> static void history(const World& w, size_t rep) {
  std::string nm = cat("handles ", w.str(), batch ? " batch " : " ", rep);
  runCase(nm, [&] {
    onWorld(w, [&](int me, IScheduler& s) {
      Handles<batch> h{s, w.s == SchedKind::Plain ? -1 : me, w.s == SchedKind::Lazy, rng(nm), rng(cat(nm, me)), nm, {}, {}, {}, 0, {}};
      h.k = batch ? 1 + h.r.below(5) : 1;
      size_t steps = n(250, 1500);
      for (size_t i = 0; i < steps; i++) {
        h.step();
        if (!h.lazy && h.later.empty()) { // nothing deferred: exactly the held values exist
          auto st = s.getWireStatistics();
          count("live_counts_checked");
          if (st.first - st.second != h.distinctLive()) { violation("live-count", cat(nm, " step ", i, ": ", st.first - st.second, " want ", h.distinctLive())); break; }
        }
        if (h.r.oneIn(25)) { for (auto& f : h.later) f(); h.later.clear(); }
      }
      for (auto& f : h.later) f();
      h.later.clear();
      for (size_t i = 0; i < h.b.size(); i++) if (h.val[i] >= 0) h.see(i);
      for (auto& f : h.later) f();
      h.later.clear();
      // force what is still pending by opening something that depends on nothing else
      h.b.clear();
      auto st = s.getWireStatistics();
      if (w.s != SchedKind::Lazy) { if (st.first != st.second) violation("wires-left", cat(nm, " ", st.first, " allocated ", st.second, " released")); }
      distinct(nm);
    });
  });
}
void handles() {
  size_t rep = 0;
  for (Alloc a : {Alloc::ArenaSafe, Alloc::ArenaUnsafe, Alloc::Map}) {
    for (size_t i = 0; i < n(12, 300); i++) { history<false>({SchedKind::Plain, EngineKind::Dealer, a, 1}, rep++); history<true>({SchedKind::Plain, EngineKind::Dealer, a, 1}, rep++); }
    for (size_t i = 0; i < n(4, 100); i++) {
      history<false>({SchedKind::Eager, EngineKind::Dealer, a, 2}, rep++); history<true>({SchedKind::Eager, EngineKind::Dealer, a, 2}, rep++);
      history<false>({SchedKind::Lazy, EngineKind::Dealer, a, 2}, rep++); history<true>({SchedKind::Lazy, EngineKind::Dealer, a, 2}, rep++);
      history<true>({SchedKind::Lazy, EngineKind::Dealer, a, 3}, rep++);
    }
  }
}
