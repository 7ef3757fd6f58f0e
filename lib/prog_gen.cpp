#include "prog.h"
namespace vf {
// The structure derives from `shapeRng`, the secret values from `valueRng`.
Prog genProg(const ProgCfg& c, Rng shapeRng, Rng valueRng) {
  Prog p;
  p.n = c.n;
  Rng& r = shapeRng;
  auto val = [&](bool isInt) -> uint64_t { return isInt ? valueRng.edgy(64) : (valueRng.coin() ? 1 : 0); };
  auto pubval = [&](bool isInt) -> uint64_t { return isInt ? r.edgy(64) : (r.coin() ? 1 : 0); };
  auto newNode = [&](Node x) { p.nodes.push_back(std::move(x)); p.maxDepth = std::max(p.maxDepth, p.nodes.back().depth); return (int)p.nodes.size() - 1; };
  auto pick = [&](std::function<bool(const Node&)> ok) {
    std::vector<int> cand;
    for (size_t i = 0; i < p.nodes.size(); i++) if (p.nodes[i].alive && ok(p.nodes[i])) cand.push_back((int)i);
    if (cand.empty()) return -1;
    // recent nodes more often: deeper programs
    if (r.coin()) return cand[cand.size() - 1 - r.below(std::min<size_t>(cand.size(), 4))];
    return cand[r.below(cand.size())];
  };
  auto size = [&]() -> size_t {
    // inputs are never empty (the engine refuses that); empty pieces come from unbatching
    if (r.oneIn(8)) return 1;
    return 1 + r.below(c.maxBatch);
  };
  auto input = [&](bool isInt, bool batch, size_t sz, bool pub) {
    Op o{pub ? K::PubIn : K::In};
    o.party = (int)r.below(c.n);
    Node x; x.isInt = isInt; x.batch = batch; x.pub = pub;
    size_t k = batch ? sz : 1;
    for (size_t i = 0; i < k; i++) x.v.push_back(pub ? pubval(isInt) : val(isInt));
    p.freeOps += k;
    o.out = {newNode(x)};
    p.ops.push_back(o);
    return o.out[0];
  };
  // an operand compatible with node a (same type and shape)
  auto partner = [&](int a, bool pub, bool priv) {
    const Node A = p.nodes[a];
    int b = pick([&](const Node& y) { return y.isInt == A.isInt && y.batch == A.batch && y.v.size() == A.v.size() && (y.pub ? pub : priv); });
    if (A.batch && A.v.empty()) return b >= 0 && (pub || priv) ? b : -1;
    if (b < 0 || r.oneIn(5)) b = input(A.isInt, A.batch, A.v.size(), pub && !priv ? true : (priv && !pub ? false : r.coin()));
    return b;
  };
  auto emit = [&](Op o) { p.ops.push_back(std::move(o)); };
  auto open = [&](int a) {
    Op o{K::Open}; o.a = a; o.party = (int)r.below(c.n);
    Node x = p.nodes[a]; x.pub = true; x.alive = false; x.depth = p.nodes[a].depth + 1; x.refs = 1;
    p.nonFreeOps += x.v.size();
    o.out = {newNode(x)};
    p.opens.push_back((int)p.ops.size());
    emit(o);
    if (r.coin() && c.gets) { Op g{K::Get}; g.a = o.out[0]; emit(g); }
  };
  for (int i = 0; i < 3; i++) {
    bool isInt = c.ints && r.oneIn(3), b = c.batches && r.coin();
    input(isInt, b, b ? size() : 1, false);
  }
  for (int s = 0; s < c.steps; s++) {
    int t = (int)r.below(100);
    if (t < 10) {
      bool b = c.batches && r.coin();
      input(c.ints && r.oneIn(3), b, b ? size() : 1, c.publicOps && r.oneIn(3));
    } else if (t < 45) { // binary
      int a = pick([&](const Node&) { return true; });
      if (a < 0) continue;
      bool apub = p.nodes[a].pub;
      // private op (private|public) or public op public
      int b = apub ? partner(a, true, false) : partner(a, c.publicOps, true);
      if (b < 0) continue;
      Op o; o.a = a; o.b = b;
      const Node A = p.nodes[a], B = p.nodes[b];
      bool mul = r.coin();
      Node x = A; x.refs = 1;
      x.pub = A.pub && B.pub;
      x.depth = std::max(A.depth, B.depth);
      bool bothPriv = !A.pub && !B.pub;
      if (A.isInt && bothPriv && mul && !c.intMult) mul = false;
      o.k = A.isInt ? (mul ? K::Mult : K::Plus) : (mul ? K::And : K::Xor);
      for (size_t i = 0; i < x.v.size(); i++)
        x.v[i] = A.isInt ? (mul ? A.v[i] * B.v[i] : A.v[i] + B.v[i]) : (mul ? (A.v[i] & B.v[i]) : (A.v[i] ^ B.v[i]));
      if (mul && bothPriv) { x.depth++; p.nonFreeOps += x.v.size(); } else p.freeOps += x.v.size();
      o.out = {newNode(x)};
      emit(o);
    } else if (t < 53) {
      int a = pick([&](const Node&) { return true; });
      if (a < 0) continue;
      Op o; o.a = a;
      Node x = p.nodes[a]; x.refs = 1;
      o.k = x.isInt ? K::Neg : K::Not;
      for (auto& e : x.v) e = x.isInt ? 0 - e : 1 - e;
      p.freeOps += x.v.size();
      o.out = {newNode(x)};
      emit(o);
    } else if (t < 65 && c.composite) {
      int a = pick([&](const Node& y) { return !y.isInt; });
      if (a < 0) continue;
      bool rp = p.nodes[a].pub ? true : (c.publicOps && r.oneIn(4));
      int k = 1 + (int)r.below(r.oneIn(4) ? 9 : 4);
      Op o{K::Composite}; o.a = a;
      for (int i = 0; i < k; i++) {
        int b = o.more.size() && r.oneIn(4) ? o.more[0] : partner(a, rp, !rp);
        if (b >= 0) o.more.push_back(b);
      }
      if (o.more.empty()) continue;
      const Node A = p.nodes[a];
      int d = A.depth;
      for (int b : o.more) d = std::max(d, p.nodes[b].depth);
      bool nonfree = !A.pub && !rp;
      for (int b : o.more) {
        Node x = A; x.refs = 1; x.pub = A.pub && rp; x.depth = d + (nonfree ? 1 : 0);
        for (size_t i = 0; i < x.v.size(); i++) x.v[i] = A.v[i] & p.nodes[b].v[i];
        (nonfree ? p.nonFreeOps : p.freeOps) += x.v.size();
        o.out.push_back(newNode(x));
      }
      emit(o);
    } else if (t < 73 && c.rebatch && c.batches) {
      int k = 1 + (int)r.below(4);
      Op o{K::Batch};
      Node x; x.batch = true;
      int first = pick([&](const Node& y) { return !y.isInt && y.batch; });
      if (first < 0) continue;
      x.pub = p.nodes[first].pub;
      for (int i = 0; i < k; i++) {
        int b = i == 0 ? first : pick([&](const Node& y) { return !y.isInt && y.batch && y.pub == x.pub; });
        o.more.push_back(b);
        x.depth = std::max(x.depth, p.nodes[b].depth);
        x.v.insert(x.v.end(), p.nodes[b].v.begin(), p.nodes[b].v.end());
      }
      if (x.v.size() > 300) continue;
      o.out = {newNode(x)};
      emit(o);
    } else if (t < 81 && c.rebatch && c.batches) {
      int a = pick([&](const Node& y) { return !y.isInt && y.batch; });
      if (a < 0) continue;
      Op o{K::Unbatch}; o.a = a;
      const Node A = p.nodes[a];
      size_t left = A.v.size(), pos = 0;
      int k = 1 + (int)r.below(4);
      for (int i = 0; i < k; i++) {
        size_t take = i == k - 1 ? left : (c.emptyBatches ? r.below(left + 1) : (left > (size_t)(k - i) ? 1 + r.below(left - (k - i)) : 1));
        if (take > left) break;
        if (!c.emptyBatches && take == 0) break;
        Node x; x.batch = true; x.pub = A.pub; x.depth = A.depth;
        x.v.assign(A.v.begin() + pos, A.v.begin() + pos + take);
        o.sizes.push_back((uint32_t)take);
        pos += take; left -= take;
        o.out.push_back(newNode(x));
      }
      if (left) { // the last piece takes the rest
        Node& x = p.nodes[o.out.back()];
        x.v.insert(x.v.end(), A.v.begin() + pos, A.v.end());
        o.sizes.back() += (uint32_t)left;
      }
      emit(o);
    } else if (t < 84 && c.reshare) {
      int a = pick([&](const Node& y) { return !y.pub; });
      if (a < 0) continue;
      Op o{K::Reshare}; o.a = a;
      Node x = p.nodes[a]; x.refs = 1; x.depth = 0;
      p.freeOps += x.v.size();
      o.out = {newNode(x)};
      emit(o);
    } else if (t < 92 && c.drops) {
      if (r.oneIn(3)) {
        int a = pick([&](const Node& y) { return y.refs < 3; });
        if (a < 0) continue;
        p.nodes[a].refs++;
        Op o{K::Ref}; o.a = a; emit(o);
      } else {
        int a = pick([&](const Node&) { return true; });
        if (a < 0) continue;
        Op o{K::Drop}; o.a = a; emit(o);
        if (--p.nodes[a].refs == 0) p.nodes[a].alive = false;
      }
    } else {
      int a = pick([&](const Node& y) { return !y.pub; });
      if (a >= 0) open(a);
    }
    if (c.openEvery && s % c.openEvery == c.openEvery - 1) {
      int a = pick([&](const Node& y) { return !y.pub; });
      if (a >= 0) open(a);
    }
  }
  // at the end: open every live private value
  std::vector<int> live;
  for (size_t i = 0; i < p.nodes.size(); i++) if (p.nodes[i].alive && !p.nodes[i].pub) live.push_back((int)i);
  r.shuffle(live);
  if (live.size() > 25) live.resize(25);
  for (int a : live) open(a);
  std::ostringstream o;
  for (auto& x : p.ops) {
    o << (int)x.k << ":" << x.a << "," << x.b << "," << x.party << str(x.more) << str(x.sizes) << ";";
  }
  p.shape = o.str();
  return p;
}

} // namespace vf
