// C05: joining and splitting batches only rearranges elements.
#include "rebatch.h"
#include "prog.h"
using namespace vf;
void typed();

// ---- directly on the schedulers -------------------------------------------------
struct Item { BoolW w; std::vector<bool> v; bool pub; bool alive = true; };
static void trees(const World& w, size_t id, int steps, size_t big) {
  std::string nm = cat("scheduler ", w.str(), "#", id);
  runCase(nm, [&] {
    int n = w.s == SchedKind::Plain ? 1 : w.n;
    auto net = memNet(n, {});
    parties(n, "party-died", [&](int me) {
      auto s = scheduler(w.s, w.e, w.a, me, n, *net[me], w.small);
      bool plain = w.s == SchedKind::Plain;
      Rng r = rng(nm), noise = rng(cat(nm, me));
      std::vector<Item> it;
      auto add = [&](BoolW x, std::vector<bool> v, bool pub) {
        count("size_queries");
        size_t g = s->getBatchSize(x);
        if (g != v.size()) violation("size", cat(nm, " getBatchSize ", g, " want ", v.size()));
        it.push_back({x, std::move(v), pub});
      };
      auto input = [&] {
        size_t k = r.oneIn(6) ? 1 : 1 + r.below(r.oneIn(8) ? big : 12);
        auto v = r.bits(k);
        int owner = r.below(n);
        if (r.oneIn(4)) add(s->publicBooleanInputBatch(v), v, true);
        else add(s->privateBooleanInputBatch(plain || owner == me ? v : noise.bits(k), owner), v, false);
      };
      auto openCheck = [&](const Item& x, const char* what) {
        int to = r.below(n);
        std::vector<bool> got;
        bool mine = true;
        if (x.pub) got = s->getBooleanValueBatch(x.w);
        else { got = s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(x.w, to)); mine = plain || to == me; }
        if (!mine) return;
        count("elements_compared", got.size());
        if (got != x.v) violation("wrong-elements", cat(nm, " ", what, " got ", str(got), " want ", str(x.v)));
      };
      input(); input(); input();
      for (int k = 0; k < steps; k++) {
        size_t a = r.below(it.size());
        switch (r.below(8)) {
          case 0: input(); break;
          case 1: case 2: { // join, the same operand possibly several times
            std::vector<BoolW> ws{it[a].w};
            std::vector<bool> v = it[a].v;
            std::vector<uint32_t> sizes{(uint32_t)v.size()};
            size_t m = r.below(r.oneIn(6) ? 20 : 5);
            for (size_t i = 0; i < m; i++) {
              size_t b = r.below(it.size());
              if (it[b].pub != it[a].pub || v.size() + it[b].v.size() > 3 * big) continue;
              ws.push_back(it[b].w);
              v.insert(v.end(), it[b].v.begin(), it[b].v.end());
              sizes.push_back(it[b].v.size());
            }
            bool pub = it[a].pub;
            auto j = s->batchingUp(ws);
            count("joins");
            add(j, v, pub);
            if (r.coin()) { // splitting it again with the same sizes
              auto parts = s->unbatching(j, std::make_shared<std::vector<uint32_t>>(sizes));
              if (parts.size() != sizes.size()) { violation("pieces", cat(nm, " ", parts.size(), " for ", sizes.size())); return; }
              size_t pos = 0;
              for (size_t i = 0; i < parts.size(); i++) { add(parts[i], std::vector<bool>(v.begin() + pos, v.begin() + pos + sizes[i]), pub); pos += sizes[i]; }
              count("splits");
            }
            break;
          }
          case 3: { // split, pieces possibly empty, everything covered
            auto v = it[a].v;
            bool pub = it[a].pub;
            std::vector<uint32_t> sizes;
            size_t left = v.size();
            while (left || sizes.empty()) { size_t t = r.below(left + 1); if (r.oneIn(3)) t = left; sizes.push_back(t); left -= t; if (sizes.size() > 9) { sizes.push_back(left); break; } }
            auto parts = s->unbatching(it[a].w, std::make_shared<std::vector<uint32_t>>(sizes));
            if (parts.size() != sizes.size()) { violation("pieces", cat(nm, " ", parts.size(), " for ", sizes.size())); return; }
            size_t pos = 0;
            for (size_t i = 0; i < parts.size(); i++) { add(parts[i], std::vector<bool>(v.begin() + pos, v.begin() + pos + sizes[i]), pub); pos += sizes[i]; }
            count("splits");
            break;
          }
          case 4: { // work in between, so that operands are still unevaluated
            std::vector<size_t> c;
            for (size_t i = 0; i < it.size(); i++) if (it[i].v.size() == it[a].v.size() && !it[i].pub) c.push_back(i);
            if (c.empty() || it[a].pub || it[a].v.empty()) break;
            size_t b = c[r.below(c.size())];
            auto v = it[a].v;
            if (r.coin()) { for (size_t i = 0; i < v.size(); i++) v[i] = v[i] & it[b].v[i]; auto x = s->privateAndPrivateBatch(it[a].w, it[b].w); add(x, v, false); }
            else { for (size_t i = 0; i < v.size(); i++) v[i] = v[i] ^ it[b].v[i]; auto x = s->privateXorPrivateBatch(it[a].w, it[b].w); add(x, v, false); }
            break;
          }
          case 5: openCheck(it[a], "in between"); break;
          case 6: { // the source is released before the pieces are used
            if (it.size() < 4) break;
            s->decreaseReferenceCountBatch(it[a].w);
            it.erase(it.begin() + a);
            break;
          }
          default: { // sizes that do not fit are refused, when asked for or when evaluated
            auto v = it[a].v;
            std::vector<uint32_t> sizes;
            size_t over = 1 + r.below(5), total = v.size() + over;
            while (total) { size_t t = r.oneIn(3) ? total : r.below(total + 1); sizes.push_back(t); total -= t; }
            if (w.s == SchedKind::Lazy) break; // deferred refusal: below
            count("misfits");
            bool refused = false;
            try { s->unbatching(it[a].w, std::make_shared<std::vector<uint32_t>>(sizes)); } catch (const std::exception&) { refused = true; }
            if (!refused) violation("misfit-accepted", cat(nm, " ", v.size(), " elements split into ", str(sizes)));
            break;
          }
        }
      }
      for (auto& x : it) openCheck(x, "at the end");
    });
    distinct(cat(nm));
    if (id % 30 == 0) sample(nm);
  });
}
// deferred: the refusal may come with the evaluation; no element is invented
static void misfitLazy(Alloc a, size_t id) {
  std::string nm = cat("misfit deferred ", name(a), "#", id);
  runCase(nm, [&] {
    auto net = memNet(2, {});
    auto e = partiesCatch(2, [&](int me) {
      Rng r = rng(nm);
      auto s = scheduler(SchedKind::Lazy, EngineKind::Dealer, a, me, 2, *net[me], 64);
      auto v = r.bits(1 + r.below(70));
      auto x = s->privateBooleanInputBatch(v, 0);
      if (r.coin()) x = s->privateAndPrivateBatch(x, x);
      if (r.coin()) x = s->notPrivateBatch(x);
      std::vector<uint32_t> sizes;
      size_t total = v.size() + 1 + (r.coin() ? r.below(5) : r.below(100000));
      while (total) { size_t t = r.oneIn(3) ? total : r.below(total + 1); sizes.push_back(t); total -= t; }
      auto parts = s->unbatching(x, std::make_shared<std::vector<uint32_t>>(sizes));
      for (auto& p : parts) s->getBooleanValueBatch(s->openBooleanValueToPartyBatch(p, 0));
    });
    count("misfits");
    for (size_t i = 0; i < e.size(); i++) if (e[i].empty()) violation("misfit-accepted", cat(nm, " party ", i));
    distinct(nm);
  });
}

void vfMain() {
  size_t id = 0;
  for (size_t i = 0; i < n(150, 3000); i++) trees({SchedKind::Plain, EngineKind::Dealer, (Alloc)(i % 3), 2}, id++, 40, 60);
  for (size_t i = 0; i < n(40, 900); i++)
    for (auto k : {SchedKind::Eager, SchedKind::Lazy, SchedKind::Lazy, SchedKind::NetPlain})
      trees({k, EngineKind::Dealer, (Alloc)(i % 3), 2 + (int)(i % 2)}, id++, 40, 60);
  for (auto k : {SchedKind::Plain, SchedKind::Eager, SchedKind::Lazy}) trees({k, EngineKind::Dealer, (Alloc)(id % 3), 2}, id++, 25, 70000);
  trees({SchedKind::Lazy, EngineKind::SmallTwo, Alloc::ArenaUnsafe, 2, 400}, id++, 20, 20);
  for (size_t i = 0; i < n(60, 600); i++) misfitLazy((Alloc)(i % 3), i);
  typed();
}
