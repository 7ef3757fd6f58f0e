#include "prog.h"
namespace vf {
// Runs the program as party `me`. `real` = inputs of others are replaced by noise.
thread_local std::function<void(uint64_t)> progHook;
RunResult runProg(const Prog& p, sched::IArithmeticScheduler& s, int me, bool plain, uint64_t noiseSeed, bool dropAll) {
  RunResult res;
  Rng noise(noiseSeed * 31 + me);
  std::vector<BoolW> bw(p.nodes.size());
  std::vector<IntW> iw(p.nodes.size());
  std::vector<int> refs(p.nodes.size(), 0);
  auto bools = [](const std::vector<uint64_t>& v) { std::vector<bool> b(v.size()); for (size_t i = 0; i < v.size(); i++) b[i] = v[i] & 1; return b; };
  auto u64 = [](const std::vector<bool>& b) { return std::vector<uint64_t>(b.begin(), b.end()); };
  for (size_t k = 0; k < p.ops.size(); k++) {
    const Op& o = p.ops[k];
    count("operations");
    const Node* A = o.a >= 0 ? &p.nodes[o.a] : nullptr;
    auto N = [&](int i) -> const Node& { return p.nodes[i]; };
    for (int x : o.out) refs[x] = 1;
    switch (o.k) {
      case K::In:
      case K::PubIn: {
        const Node& x = N(o.out[0]);
        auto v = x.v;
        if (o.k == K::In && !plain && o.party != me) for (auto& e : v) e = x.isInt ? noise() : noise.below(2);
        if (o.k == K::In) {
          if (x.isInt) iw[o.out[0]] = x.batch ? s.privateIntegerInputBatch(v, o.party) : s.privateIntegerInput(v[0], o.party);
          else bw[o.out[0]] = x.batch ? s.privateBooleanInputBatch(bools(v), o.party) : s.privateBooleanInput(v[0] & 1, o.party);
        } else {
          if (x.isInt) iw[o.out[0]] = x.batch ? s.publicIntegerInputBatch(v) : s.publicIntegerInput(v[0]);
          else bw[o.out[0]] = x.batch ? s.publicBooleanInputBatch(bools(v)) : s.publicBooleanInput(v[0] & 1);
        }
        break;
      }
      case K::And: case K::Xor: {
        const Node& B = N(o.b);
        int l = o.a, rr = o.b;
        if (A->pub && !B.pub) std::swap(l, rr);
        bool pl = N(l).pub, pr = N(rr).pub, bt = A->batch;
        if (o.k == K::And)
          bw[o.out[0]] = !pl && !pr ? (bt ? s.privateAndPrivateBatch(bw[l], bw[rr]) : s.privateAndPrivate(bw[l], bw[rr]))
              : !pl ? (bt ? s.privateAndPublicBatch(bw[l], bw[rr]) : s.privateAndPublic(bw[l], bw[rr]))
                    : (bt ? s.publicAndPublicBatch(bw[l], bw[rr]) : s.publicAndPublic(bw[l], bw[rr]));
        else
          bw[o.out[0]] = !pl && !pr ? (bt ? s.privateXorPrivateBatch(bw[l], bw[rr]) : s.privateXorPrivate(bw[l], bw[rr]))
              : !pl ? (bt ? s.privateXorPublicBatch(bw[l], bw[rr]) : s.privateXorPublic(bw[l], bw[rr]))
                    : (bt ? s.publicXorPublicBatch(bw[l], bw[rr]) : s.publicXorPublic(bw[l], bw[rr]));
        break;
      }
      case K::Mult: case K::Plus: {
        const Node& B = N(o.b);
        int l = o.a, rr = o.b;
        if (A->pub && !B.pub) std::swap(l, rr);
        bool pl = N(l).pub, pr = N(rr).pub, bt = A->batch;
        if (o.k == K::Mult)
          iw[o.out[0]] = !pl && !pr ? (bt ? s.privateMultPrivateBatch(iw[l], iw[rr]) : s.privateMultPrivate(iw[l], iw[rr]))
              : !pl ? (bt ? s.privateMultPublicBatch(iw[l], iw[rr]) : s.privateMultPublic(iw[l], iw[rr]))
                    : (bt ? s.publicMultPublicBatch(iw[l], iw[rr]) : s.publicMultPublic(iw[l], iw[rr]));
        else
          iw[o.out[0]] = !pl && !pr ? (bt ? s.privatePlusPrivateBatch(iw[l], iw[rr]) : s.privatePlusPrivate(iw[l], iw[rr]))
              : !pl ? (bt ? s.privatePlusPublicBatch(iw[l], iw[rr]) : s.privatePlusPublic(iw[l], iw[rr]))
                    : (bt ? s.publicPlusPublicBatch(iw[l], iw[rr]) : s.publicPlusPublic(iw[l], iw[rr]));
        break;
      }
      case K::Not:
        bw[o.out[0]] = A->pub ? (A->batch ? s.notPublicBatch(bw[o.a]) : s.notPublic(bw[o.a])) : (A->batch ? s.notPrivateBatch(bw[o.a]) : s.notPrivate(bw[o.a]));
        break;
      case K::Neg:
        iw[o.out[0]] = A->pub ? (A->batch ? s.negPublicBatch(iw[o.a]) : s.negPublic(iw[o.a])) : (A->batch ? s.negPrivateBatch(iw[o.a]) : s.negPrivate(iw[o.a]));
        break;
      case K::Composite: {
        std::vector<BoolW> rs;
        for (int b : o.more) rs.push_back(bw[b]);
        bool pl = A->pub, pr = N(o.more[0]).pub;
        auto out = !pl && !pr ? (A->batch ? s.privateAndPrivateCompositeBatch(bw[o.a], rs) : s.privateAndPrivateComposite(bw[o.a], rs))
            : !pl ? (A->batch ? s.privateAndPublicCompositeBatch(bw[o.a], rs) : s.privateAndPublicComposite(bw[o.a], rs))
                  : (A->batch ? s.publicAndPublicCompositeBatch(bw[o.a], rs) : s.publicAndPublicComposite(bw[o.a], rs));
        if (out.size() != o.out.size()) { res.problems.push_back(cat("composite returned ", out.size(), " results for ", o.out.size())); return res; }
        for (size_t i = 0; i < out.size(); i++) bw[o.out[i]] = out[i];
        break;
      }
      case K::Batch: {
        std::vector<BoolW> rs;
        for (int b : o.more) rs.push_back(bw[b]);
        bw[o.out[0]] = s.batchingUp(rs);
        break;
      }
      case K::Unbatch: {
        auto out = s.unbatching(bw[o.a], std::make_shared<std::vector<uint32_t>>(o.sizes));
        if (out.size() != o.out.size()) { res.problems.push_back(cat("unbatching returned ", out.size(), " pieces for ", o.out.size())); return res; }
        for (size_t i = 0; i < out.size(); i++) bw[o.out[i]] = out[i];
        break;
      }
      case K::Reshare: {
        if (A->isInt) {
          std::vector<uint64_t> sh = A->batch ? s.extractIntegerSecretShareBatch(iw[o.a]) : std::vector<uint64_t>{s.extractIntegerSecretShare(iw[o.a])};
          res.shares[(int)k] = sh;
          if (A->batch && sh.size() != A->v.size()) { res.problems.push_back(cat("share batch of ", sh.size(), " for ", A->v.size())); return res; }
          iw[o.out[0]] = A->batch ? s.recoverIntegerWireBatch(sh) : s.recoverIntegerWire(sh[0]);
        } else {
          std::vector<bool> sh = A->batch ? s.extractBooleanSecretShareBatch(bw[o.a]) : std::vector<bool>{s.extractBooleanSecretShare(bw[o.a])};
          res.shares[(int)k] = u64(sh);
          if (A->batch && sh.size() != A->v.size()) { res.problems.push_back(cat("share batch of ", sh.size(), " for ", A->v.size())); return res; }
          bw[o.out[0]] = A->batch ? s.recoverBooleanWireBatch(sh) : s.recoverBooleanWire(sh[0]);
        }
        break;
      }
      case K::Open:
        if (A->isInt) iw[o.out[0]] = A->batch ? s.openIntegerValueToPartyBatch(iw[o.a], o.party) : s.openIntegerValueToParty(iw[o.a], o.party);
        else bw[o.out[0]] = A->batch ? s.openBooleanValueToPartyBatch(bw[o.a], o.party) : s.openBooleanValueToParty(bw[o.a], o.party);
        break;
      case K::Get:
        if (A->isInt) { if (A->batch) s.getIntegerValueBatch(iw[o.a]); else s.getIntegerValue(iw[o.a]); }
        else { if (A->batch) s.getBooleanValueBatch(bw[o.a]); else s.getBooleanValue(bw[o.a]); }
        break;
      case K::Ref:
        refs[o.a]++;
        if (A->isInt) { if (A->batch) s.increaseReferenceCountBatch(iw[o.a]); else s.increaseReferenceCount(iw[o.a]); }
        else { if (A->batch) s.increaseReferenceCountBatch(bw[o.a]); else s.increaseReferenceCount(bw[o.a]); }
        break;
      case K::Drop:
        refs[o.a]--;
        if (A->isInt) { if (A->batch) s.decreaseReferenceCountBatch(iw[o.a]); else s.decreaseReferenceCount(iw[o.a]); }
        else { if (A->batch) s.decreaseReferenceCountBatch(bw[o.a]); else s.decreaseReferenceCount(bw[o.a]); }
        break;
    }
    if (progHook) progHook((uint64_t)std::count_if(refs.begin(), refs.end(), [](int x) { return x > 0; }));
    // sizes are known before anything is evaluated
    for (int x : o.out)
      if (N(x).batch) {
        size_t g = N(x).isInt ? s.getBatchSize(iw[x]) : s.getBatchSize(bw[x]);
        if (g != N(x).v.size()) res.problems.push_back(cat("getBatchSize ", g, " after op ", (int)o.k, ", should be ", N(x).v.size()));
      }
  }
  for (int k : p.opens) {
    int x = p.ops[k].out[0];
    const Node& X = p.nodes[x];
    if (X.isInt) res.opened[k] = X.batch ? s.getIntegerValueBatch(iw[x]) : std::vector<uint64_t>{s.getIntegerValue(iw[x])};
    else res.opened[k] = X.batch ? u64(s.getBooleanValueBatch(bw[x])) : std::vector<uint64_t>{s.getBooleanValue(bw[x])};
  }
  // let everything run, also what nobody opened
  for (size_t i = 0; i < p.nodes.size(); i++) {
    if (!refs[i]) continue;
    const Node& X = p.nodes[i];
    if (X.isInt) { if (X.batch) s.getIntegerValueBatch(iw[i]); else s.getIntegerValue(iw[i]); }
    else { if (X.batch) s.getBooleanValueBatch(bw[i]); else s.getBooleanValue(bw[i]); }
  }
  res.gates = s.getGateStatistics();
  res.wires = s.getWireStatistics();
  res.traffic = s.getTrafficStatistics();
  if (dropAll) {
    for (size_t i = 0; i < p.nodes.size(); i++)
      for (; refs[i] > 0; refs[i]--) {
        const Node& X = p.nodes[i];
        if (X.isInt) { if (X.batch) s.decreaseReferenceCountBatch(iw[i]); else s.decreaseReferenceCount(iw[i]); }
        else { if (X.batch) s.decreaseReferenceCountBatch(bw[i]); else s.decreaseReferenceCount(bw[i]); }
      }
    res.wiresEnd = s.getWireStatistics();
  }
  return res;
}

// Compare what the parties read with the plaintext meaning.
void checkProg(const Prog& p, const World& w, const std::vector<RunResult>& rs, const std::string& tag) {
  for (size_t i = 0; i < rs.size(); i++)
    for (auto& s : rs[i].problems) violation("structure", cat(tag, " party ", i, ": ", s));
  bool plain = w.s == SchedKind::Plain;
  for (int k : p.opens) {
    const Op& o = p.ops[k];
    for (size_t i = 0; i < rs.size(); i++) {
      auto it = rs[i].opened.find(k);
      if (it == rs[i].opened.end()) continue;
      if (plain || (int)i == o.party) {
        count("values_opened", it->second.size());
        check(it->second == p.nodes[o.out[0]].v, "wrong-value", [&] { return cat(tag, " op ", k, " opened to ", o.party, " got ", str(it->second), " want ", str(p.nodes[o.out[0]].v)); });
      }
    }
  }
  if (plain) return;
  for (size_t k = 0; k < p.ops.size(); k++) {
    if (p.ops[k].k != K::Reshare) continue;
    const Node& X = p.nodes[p.ops[k].a];
    std::vector<uint64_t> sum(X.v.size(), 0);
    bool all = true;
    for (auto& r : rs) {
      auto it = r.shares.find((int)k);
      if (it == r.shares.end() || it->second.size() != sum.size()) { all = false; break; }
      for (size_t i = 0; i < sum.size(); i++) sum[i] = X.isInt ? sum[i] + it->second[i] : sum[i] ^ it->second[i];
    }
    if (all) { count("shares_recombined", sum.size()); check(sum == X.v, "wrong-share", [&] { return cat(tag, " op ", k, " shares give ", str(sum), " want ", str(X.v)); }); }
  }
}

// whole run over n parties; returns results (empty if a party died)
std::vector<RunResult> runWorld(const World& w, const Prog& p, uint64_t seed, bool dropAll,
                                       std::vector<std::shared_ptr<Tape>> tapes) {
  int n = w.s == SchedKind::Plain ? 1 : w.n;
  if (tapes.empty() && w.delayUs) tapes = newTapes(n, false, w.delayUs, seed);
  auto net = memNet(n, tapes);
  std::vector<RunResult> rs(n);
  bool ok = parties(n, "party-died", [&](int i) {
    auto s = scheduler(w.s, w.e, w.a, i, n, *net[i], w.small);
    rs[i] = runProg(p, *s, i, w.s == SchedKind::Plain, seed, dropAll);
  });
  if (!ok) rs.clear();
  return rs;
}
} // namespace vf
