// C29: message authentication codes against their standards.
#include <openssl/evp.h>
#include <cstring>
#include <map>
#include "vf.h"
#include "fbpcf/primitive/mac/AesCmacFactory.h"
#include "fbpcf/primitive/mac/S2vFactory.h"
using namespace vf;
namespace mc = fbpcf::primitive::mac;
using Bytes = std::vector<unsigned char>;
static std::string hex(const Bytes& b) { std::string r; char t[3]; for (auto x : b) { snprintf(t, 3, "%02x", x); r += t; } return r.size() > 80 ? r.substr(0, 80) + ".." : r; }
static Bytes unhex(const std::string& s) { Bytes r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((unsigned char)std::stoi(s.substr(i, 2), nullptr, 16)); return r; }

// ---- the standards, on single AES blocks ---------------------------------------
struct Block {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  explicit Block(const Bytes& k) { EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, k.data(), nullptr); EVP_CIPHER_CTX_set_padding(c, 0); }
  ~Block() { EVP_CIPHER_CTX_free(c); }
  Bytes operator()(const Bytes& in) { Bytes o(16); int l = 0; EVP_EncryptUpdate(c, o.data(), &l, in.data(), 16); return o; }
};
static Bytes dbl(Bytes b) { bool m = b[0] >> 7; for (int i = 0; i < 16; i++) b[i] = (unsigned char)((b[i] << 1) | (i < 15 ? b[i + 1] >> 7 : 0)); if (m) b[15] ^= 0x87; return b; }
static Bytes cmac(const Bytes& key, const Bytes& t) { // RFC 4493
  Block e(key);
  Bytes k1 = dbl(e(Bytes(16))), k2 = dbl(k1), x(16);
  size_t blocks = t.empty() ? 1 : (t.size() + 15) / 16;
  for (size_t b = 0; b < blocks; b++) {
    Bytes m(16);
    size_t len = std::min<size_t>(16, t.size() - b * 16);
    if (t.empty()) len = 0;
    std::copy(t.begin() + b * 16, t.begin() + b * 16 + len, m.begin());
    if (b + 1 == blocks) { if (len < 16) m[len] = 0x80; for (int i = 0; i < 16; i++) m[i] ^= len < 16 ? k2[i] : k1[i]; }
    for (int i = 0; i < 16; i++) x[i] ^= m[i];
    x = e(x);
  }
  return x;
}
static Bytes s2v(const Bytes& key, Bytes t) { // RFC 5297, one string
  Bytes d = cmac(key, Bytes(16));
  if (t.size() < 16) { d = dbl(d); t.push_back(0x80); t.resize(16); }
  for (int i = 0; i < 16; i++) t[t.size() - 16 + i] ^= d[i];
  return cmac(key, t);
}
static Bytes siv(const Bytes& key, const Bytes& t) { // OpenSSL's AES-SIV: its tag without associated data
  static EVP_CIPHER* c = EVP_CIPHER_fetch(nullptr, "AES-128-SIV", nullptr);
  if (!c || t.empty()) return {};
  Bytes k = key; k.resize(32, 7);
  EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
  Bytes out(t.size() + 16), tag(16); int l = 0;
  bool ok = EVP_EncryptInit_ex2(x, c, k.data(), nullptr, nullptr) && EVP_EncryptUpdate(x, out.data(), &l, t.data(), (int)t.size()) && EVP_EncryptFinal_ex(x, out.data(), &l) &&
      EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_AEAD_GET_TAG, 16, tag.data());
  EVP_CIPHER_CTX_free(x);
  return ok ? tag : Bytes{};
}
static Bytes m128(__m128i x) { Bytes b(16); memcpy(b.data(), &x, 16); return b; }
static Bytes bytes(Rng& r, size_t n) { Bytes b(n); int s = r.below(5); for (auto& x : b) x = s == 0 ? 0 : s == 1 ? 0xff : (unsigned char)r(); return b; }

static void compare(const std::string& nm, mc::IMac& m, bool iv, const Bytes& key, const Bytes& t) {
  Bytes want = iv ? s2v(key, t) : cmac(key, t), got = m.getMac128(t);
  count("codes_compared");
  if (got != want) violation(iv ? "wrong-s2v" : "wrong-cmac", cat(nm, " key ", hex(key), " text of ", t.size(), " ", hex(t), ": ", hex(got), " instead of ", hex(want)));
  if (m128(m.getMacM128i(t)) != got) violation("forms-differ", cat(nm, " text of ", t.size()));
  if (iv) if (Bytes o = siv(key, t); !o.empty()) { count("codes_compared_with_openssl"); if (o != want) inconclusive(cat("oracles differ on ", hex(key), " ", hex(t))); }
}
static void lengths(size_t id) {
  bool iv = id & 1;
  std::string nm = cat(iv ? "s2v #" : "cmac #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    std::unique_ptr<mc::IMacFactory> f;
    if (iv) f = std::make_unique<mc::S2vFactory>(); else f = std::make_unique<mc::AesCmacFactory>();
    Bytes key = bytes(r, 16), key2 = bytes(r, 16);
    auto a = f->create(key), b = f->create(key2);
    std::map<Bytes, Bytes> seen;
    auto one = [&](const Bytes& t) {
      compare(nm, *a, iv, key, t);
      auto [it, fresh] = seen.emplace(a->getMac128(t), t);
      if (!fresh && it->second != t) violation("collision", cat(nm, " key ", hex(key), ": ", hex(t), " and ", hex(it->second)));
      if (r.oneIn(3)) compare(nm, *b, iv, key2, t); // objects do not disturb each other
    };
    for (size_t len = 0; len <= n(70, 300); len++) {
      Bytes t = bytes(r, len);
      one(t);
      // texts that look alike: padded, extended, one bit elsewhere
      Bytes p = t; p.push_back(0x80); one(p);
      p.resize((p.size() + 15) / 16 * 16); one(p);
      p = t; p.push_back(0); one(p);
      if (len) { p = t; p[r.below(len)] ^= 1 << r.below(8); one(p); }
      if (len >= 16 && r.coin()) { p = Bytes(t.begin(), t.begin() + len / 16 * 16); one(p); }
    }
    for (size_t i = 0; i < n(3, 30); i++) one(bytes(r, r.below(r.oneIn(4) ? 100000 : 3000)));
    distinct(nm);
  });
}
void vfMain() {
  runCase("published vectors", [] {
    Bytes k = unhex("2b7e151628aed2a6abf7158809cf4f3c"), t = unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411e5fbc1191a0a52eff69f2445df4f9b17ad2b417be66c3710");
    const std::pair<size_t, const char*> v[] = {{0, "bb1d6929e95937287fa37d129b756746"}, {16, "070a16b46b4d4144f79bdd9dd04a287c"}, {40, "dfa66747de9ae63030ca32611497c827"}, {64, "51f0bebf7e3b9d92fc49741779363cfe"}};
    for (auto& [len, mac] : v) {
      Bytes s(t.begin(), t.begin() + len);
      count("published_vectors");
      if (cmac(k, s) != unhex(mac)) inconclusive("the oracle misses RFC 4493");
      if (mc::AesCmacFactory().create(k)->getMac128(s) != unhex(mac)) violation("rfc4493", cat("length ", len));
    }
    distinct("vectors");
  });
  runCase("keys of other lengths", [] {
    for (size_t len : {0, 1, 8, 15, 17, 24, 32, 64})
      for (bool iv : {false, true}) {
        Bytes k(len, 3);
        count("refusals");
        bool ok = false;
        try { if (iv) mc::S2vFactory().create(k)->getMac128(Bytes(5)); else mc::AesCmacFactory().create(k)->getMac128(Bytes(5)); } catch (const std::exception&) { ok = true; }
        if (!ok) violation("key-length-accepted", cat(len, " bytes"));
      }
    distinct("keys");
  });
  for (size_t i = 0; i < n(60, 600); i++) lengths(i);
}
