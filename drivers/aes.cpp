// C18: the AES circuits against OpenSSL, in the clear and as secure circuits.
#include <openssl/evp.h>
#include <emmintrin.h>
#include <cstring>
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtr.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtrFactory.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitFactory.h"
#include "switch.h"
using namespace vf;
namespace ac = fbpcf::mpc_std_lib::aes_circuit;
using fbpcf::engine::util::Aes;
using B = std::vector<unsigned char>;
using Bits = std::vector<bool>;

static B ossl(const EVP_CIPHER* ci, bool enc, const B& key, const B& iv, const B& in) {
  B out(in.size() + 32);
  auto* c = EVP_CIPHER_CTX_new();
  int l = 0;
  EVP_CipherInit_ex(c, ci, nullptr, key.data(), iv.empty() ? nullptr : iv.data(), enc);
  EVP_CIPHER_CTX_set_padding(c, 0);
  if (in.size()) EVP_CipherUpdate(c, out.data(), &l, in.data(), (int)in.size());
  EVP_CIPHER_CTX_free(c);
  out.resize(in.size());
  return out;
}
static B ecb(bool enc, const B& key, const B& in) { return ossl(EVP_aes_128_ecb(), enc, key, {}, in); }
static B bytes(Rng& r, size_t n) {
  B b(n);
  int style = r.below(6);
  for (auto& c : b) c = style == 0 ? 0 : style == 1 ? 255 : style == 2 ? (r.oneIn(8) ? 1 << r.below(8) : 0) : r();
  return b;
}
static Bits toBits(const B& b) { Bits r; for (auto c : b) for (int i = 7; i >= 0; i--) r.push_back(c >> i & 1); return r; }
static B expand(const B& key, bool enc) {
  __m128i k;
  memcpy(&k, key.data(), 16);
  auto e = enc ? Aes::expandEncryptionKey(k) : Aes::expandDecryptionKey(k);
  B r(176);
  memcpy(r.data(), e.data(), 176);
  return r;
}
static std::string hex(const B& b) { std::string s; char t[3]; for (auto c : b) { snprintf(t, 3, "%02x", c); s += t; } return s.substr(0, 96); }
static B counters(Rng& r, size_t blocks, B& iv) { // consecutive big-endian counters, as in counter mode
  iv = bytes(r, 16);
  if (r.oneIn(3)) std::fill(iv.begin() + 8 + r.below(8), iv.end(), 255);
  B m, c = iv;
  for (size_t i = 0; i < blocks; i++) {
    m.insert(m.end(), c.begin(), c.end());
    for (int j = 15; j >= 0 && ++c[j] == 0; j--) {}
  }
  return m;
}
template <class T, class F> static void refuse(const char* what, F f) {
  bool threw = false;
  try { f(); } catch (const std::exception&) { threw = true; }
  count("refusals");
  if (!threw) violation("misfit-accepted", what);
}

static void clear(size_t k) {
  auto r = rng(cat("clear", k));
  size_t blocks = k % 60 == 59 ? 257 + r.below(20) : r.oneIn(10) ? 40 : r.below(5);
  B key = bytes(r, 16), in = bytes(r, blocks * 16), iv;
  auto tag = cat("clear key=", hex(key), " blocks=", blocks, " case ", k);
  runCase(tag, [&] {
    auto a = ac::AesCircuitFactory<bool>().create();
    auto c = ac::AesCircuitCtrFactory<bool>().create();
    auto same = [&](const char* what, const Bits& got, const B& want) {
      count("blocks_compared", want.size() / 16);
      if (got != toBits(want)) violation(what, cat(tag, " in ", hex(in), " want ", hex(want)));
    };
    Bits ek = toBits(expand(key, true)), dk = toBits(expand(key, false)), bi = toBits(in);
    auto e = a->encrypt(bi, ek);
    same("encrypt", e, ecb(true, key, in));
    same("decrypt", a->decrypt(bi, dk), ecb(false, key, in));
    same("inverse", a->decrypt(e, dk), in);
    B m = counters(r, blocks, iv);
    auto ct = c->encrypt(bi, ek, toBits(m));
    same("counter-mode", ct, ossl(EVP_aes_128_ctr(), true, key, iv, in));
    same("counter-mode-inverse", c->decrypt(ct, ek, toBits(m)), in);
    B m2 = bytes(r, blocks * 16), w = ecb(true, key, m2);
    for (size_t i = 0; i < w.size(); i++) w[i] ^= in[i];
    same("counter-mode-any-mask", c->encrypt(bi, ek, toBits(m2)), w);
    // refusals
    auto cut = [&](Bits b, int d) { b.resize(b.size() + d); return b; };
    int d = r.coin() ? 1 + r.below(127) : blocks ? -(int)(1 + r.below(127)) : 1 + (int)r.below(127);
    int kd = r.oneIn(4) ? (r.coin() ? 128 : -128) : r.coin() ? 1 : -1;
    refuse<void>("plaintext of a broken block", [&] { a->encrypt(cut(bi, d), ek); });
    refuse<void>("ciphertext of a broken block", [&] { a->decrypt(cut(bi, d), dk); });
    refuse<void>("key schedule of a wrong size (encrypt)", [&] { a->encrypt(bi, cut(ek, kd)); });
    refuse<void>("key schedule of a wrong size (decrypt)", [&] { a->decrypt(bi, cut(dk, kd)); });
    refuse<void>("counter mode plaintext of a broken block", [&] { c->encrypt(cut(bi, d), ek, cut(bi, d)); });
    refuse<void>("counter mode ciphertext of a broken block", [&] { c->decrypt(cut(bi, d), ek, cut(bi, d)); });
    refuse<void>("counter mode key schedule of a wrong size", [&] { c->encrypt(bi, cut(ek, kd), bi); c->decrypt(bi, cut(ek, kd), bi); });
    refuse<void>("counter mode mask of another size", [&] { c->encrypt(bi, ek, cut(bi, blocks && r.coin() ? -128 : 128)); });
    refuse<void>("counter mode mask of another size", [&] { c->decrypt(bi, ek, cut(bi, blocks && r.coin() ? -128 : 128)); });
  });
  distinct(tag);
}

// every bit of every block is a value (or a batch of values)
template <bool batch> static void secure(const World& w, size_t k, size_t many = 0) {
  auto r0 = rng(cat("secure", w.str(), batch, k, "/", many));
  size_t lanes = many ? many : batch ? 1 + r0.below(9) : 1, blocks = many > 40 ? 1 : 1 + r0.below(batch ? 3 : 2);
  if (many == 1) blocks = 9 + r0.below(12);
  bool sameKey = r0.coin();
  std::vector<B> key(lanes), in(lanes), m(lanes);
  for (size_t l = 0; l < lanes; l++) {
    key[l] = l && sameKey ? key[0] : bytes(r0, 16);
    in[l] = bytes(r0, blocks * 16);
    m[l] = bytes(r0, blocks * 16);
  }
  int op = r0.below(4), keyOf = r0.below(2), dataOf = r0.below(2), to = r0.below(2);
  auto nm = cat("secure ", w.str(), batch ? " batch of " : " ", lanes, " op ", op, " blocks ", blocks, " case ", k);
  std::vector<B> want(lanes);
  for (size_t l = 0; l < lanes; l++) {
    if (op == 0) want[l] = ecb(true, key[l], in[l]);
    else if (op == 1) want[l] = ecb(false, key[l], in[l]);
    else { want[l] = ecb(true, key[l], m[l]); for (size_t i = 0; i < in[l].size(); i++) want[l][i] ^= in[l][i]; }
  }
  using Bit = fbpcf::frontend::Bit<true, 0, batch>;
  runCase(nm, [&] {
    onWorld(w, [&](int me, sched::IScheduler&) {
      bool plain = w.s == SchedKind::Plain;
      auto noise = rng(cat(nm, "noise", me));
      auto secret = [&](const std::vector<B>& v, int owner) {
        std::vector<Bit> out;
        std::vector<Bits> b;
        for (auto& x : v) b.push_back(toBits(x));
        for (size_t i = 0; i < b[0].size(); i++) {
          std::vector<bool> lane(lanes);
          for (size_t l = 0; l < lanes; l++) lane[l] = plain || owner == me ? b[l][i] : noise.coin();
          if constexpr (batch) out.emplace_back(lane, owner);
          else out.emplace_back((bool)lane[0], owner);
        }
        return out;
      };
      std::vector<B> ks(lanes);
      for (size_t l = 0; l < lanes; l++) ks[l] = expand(key[l], op != 1);
      auto K = secret(ks, keyOf), D = secret(in, dataOf);
      std::vector<Bit> out;
      if (op < 2) {
        auto a = ac::AesCircuitFactory<Bit>().create();
        out = op == 0 ? a->encrypt(D, K) : a->decrypt(D, K);
      } else {
        auto a = ac::AesCircuitCtrFactory<Bit>().create();
        auto M = secret(m, 1 - dataOf);
        out = op == 2 ? a->encrypt(D, K, M) : a->decrypt(D, K, M);
      }
      progress();
      std::vector<Bits> got(lanes);
      std::vector<decltype(out[0].openToParty(0))> op_;
      for (auto& x : out) op_.push_back(x.openToParty(to));
      for (auto& x : op_) {
        auto v = x.getValue();
        if constexpr (batch) { for (size_t l = 0; l < lanes && l < v.size(); l++) got[l].push_back(v[l]); }
        else got[0].push_back(v);
      }
      if (plain || me == to)
        for (size_t l = 0; l < lanes; l++) {
          count("secure_blocks_compared", blocks);
          if (got[l] != toBits(want[l])) violation(cat("secure-op-", op), cat(nm, " lane ", l, " key ", hex(key[l]), " in ", hex(in[l]), " want ", hex(want[l])));
        }
      // inputs are as they were
      auto again = D[noise.below(1)].openToParty(to).getValue();
      if (plain || me == to) {
        bool ok;
        if constexpr (batch) { ok = again.size() == lanes; for (size_t l = 0; ok && l < lanes; l++) ok = again[l] == (in[l][0] >> 7); }
        else ok = again == (in[0][0] >> 7);
        if (!ok) violation("input-changed", nm);
      }
    });
  });
  distinct(nm);
}
void vfMain() {
  Switch::install<0>();
  for (size_t k = 0; k < n(150, 5000); k++) clear(k);
  World ws[] = {{SchedKind::Plain, EngineKind::Dealer, Alloc::ArenaSafe, 2},
                {SchedKind::NetPlain, EngineKind::Dealer, Alloc::Map, 2},
                {SchedKind::Eager, EngineKind::Dealer, Alloc::ArenaUnsafe, 2},
                {SchedKind::Lazy, EngineKind::Dealer, Alloc::ArenaSafe, 2},
                {SchedKind::Lazy, EngineKind::Dealer, Alloc::Map, 3}};
  for (auto& w : ws)
    for (size_t k = 0; k < (w.s == SchedKind::Plain ? n(6, 60) : n(2, 30)); k++) { secure<true>(w, k); secure<false>(w, k); }
  for (size_t many : {65, 130, 300, 1100}) secure<true>(ws[0], 0, many);
  for (auto& w : ws) if (w.n == 2 || thorough()) for (size_t k = 0; k < n(1, 4); k++) { secure<true>(w, k, 65 + k); secure<true>(w, k, 1); }
}
