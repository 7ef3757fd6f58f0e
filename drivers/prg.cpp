// C10: block cipher, hash and pseudo-random streams against OpenSSL.
#include <openssl/evp.h>
#include <cstring>
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AesPrgFactory.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/engine/util/util.h"
#include "vf.h"
using namespace fbpcf::engine::util;
using B = std::vector<unsigned char>;
static B bytesOf(__m128i x) { B b(16); memcpy(b.data(), &x, 16); return b; }
static __m128i blockOf(const B& b) { __m128i x; memcpy(&x, b.data(), 16); return x; }
static bool same(__m128i a, __m128i b) { return bytesOf(a) == bytesOf(b); }
static std::string hex(const B& b) { std::string s; char t[3]; for (auto c : b) { snprintf(t, 3, "%02x", c); s += t; } return s; }
static B ecb(const B& key, const B& in) {
  B out(in.size() + 16);
  auto* c = EVP_CIPHER_CTX_new();
  int l = 0;
  EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, key.data(), nullptr);
  EVP_CIPHER_CTX_set_padding(c, 0);
  EVP_EncryptUpdate(c, out.data(), &l, in.data(), (int)in.size());
  EVP_CIPHER_CTX_free(c);
  out.resize(in.size());
  return out;
}
static __m128i rblock(vf::Rng& r) { return _mm_set_epi64x((long long)r.edgy(), (long long)r.edgy()); }

// the reference stream: block i is AES(seed, i), i a 64 bit counter in the low half
static B refStream(const B& key, size_t from, size_t n) {
  size_t b0 = from / 16, b1 = (from + n + 15) / 16;
  B in((b1 - b0) * 16, 0);
  for (size_t i = b0; i < b1; i++) { uint64_t c = i; memcpy(&in[(i - b0) * 16], &c, 8); }
  auto o = in.empty() ? B() : ecb(key, in);
  return B(o.begin() + (from - b0 * 16), o.begin() + (from - b0 * 16) + n);
}

static void cipherCases() {
  auto r = vf::rng("cipher");
  for (size_t k = 0; k < vf::n(400, 20000); k++) {
    size_t n = r.oneIn(20) ? r.below(2000) : r.below(40);
    __m128i key = rblock(r);
    std::vector<__m128i> data(n);
    for (auto& d : data) d = rblock(r);
    vf::runCase(vf::cat("cipher key=", hex(bytesOf(key)), " blocks=", n), [&] {
      B in(n * 16);
      if (n) memcpy(in.data(), data.data(), n * 16);
      auto want = n ? ecb(bytesOf(key), in) : B();
      Aes a(key);
      auto d = data;
      a.encryptInPlace(d);
      B got(n * 16);
      if (n) memcpy(got.data(), d.data(), n * 16);
      vf::check(got == want, "cipher-differs-from-aes128", [&] { return vf::cat("got ", hex(got).substr(0, 64), " want ", hex(want).substr(0, 64)); });
      auto again = data;
      a.encryptInPlace(again);
      vf::check(n == 0 || memcmp(again.data(), d.data(), n * 16) == 0, "cipher-not-repeatable", [&] { return ""; });
      if (n) {
        auto h = data;
        a.inPlaceHash(h);
        bool ok = true;
        for (size_t i = 0; i < n; i++) ok &= same(h[i], _mm_xor_si128(d[i], data[i]));
        vf::check(ok, "hash-is-not-cipher-xor-input", [&] { return ""; });
        auto ks = Aes::expandDecryptionKey(key);
        auto es = Aes::expandEncryptionKey(key);
        __m128i x = _mm_xor_si128(d[0], ks[0]);
        for (int i = 1; i < 10; i++) x = _mm_aesdec_si128(x, ks[i]);
        x = _mm_aesdeclast_si128(x, ks[10]);
        vf::check(same(x, data[0]), "decryption-key-does-not-invert", [&] { return ""; });
        vf::check(same(es[0], key), "first-round-key", [&] { return ""; });
      }
      vf::count("blocks_compared", n);
      vf::distinct(vf::cat("c", hex(bytesOf(key)), n));
    });
  }
  vf::current("fixed key");
  vf::check(same(Aes::getFixedKey(), Aes::getFixedKey()), "fixed-key", [&] { return ""; });
}

static void streamCases() {
  auto r = vf::rng("stream");
  for (size_t k = 0; k < vf::n(250, 6000); k++) {
    __m128i seed = rblock(r);
    int bs = r.oneIn(3) ? 1 : (int)r.range(1, r.oneIn(4) ? 1024 : 20);
    size_t reqs = r.range(1, 40);
    std::string desc = vf::cat("stream seed=", hex(bytesOf(seed)), " buffer=", bs, " requests=", reqs);
    vf::runCase(desc, [&] {
      std::unique_ptr<IPrg> prg;
      if (r.coin()) prg = std::make_unique<AesPrg>(seed, bs);
      else prg = AesPrgFactory(bs).create(seed);
      auto key = bytesOf(seed);
      size_t pos = 0;
      std::string shape;
      for (size_t q = 0; q < reqs; q++) {
        size_t n = r.oneIn(6) ? 0 : r.oneIn(8) ? r.range(1, 16 * bs * 3) : r.range(1, 70);
        int kind = r.below(4);
        vf::progress();
        if (kind == 0) {
          auto got = prg->getRandomBytes(n);
          auto want = refStream(key, pos, n);
          vf::check(got == want, "stream-bytes", [&] { return vf::cat("at ", pos, " n=", n, " got ", hex(got).substr(0, 60), " want ", hex(want).substr(0, 60)); });
          pos += n;
        } else if (kind == 1) {
          auto got = prg->getRandomBits(n);
          size_t nb = (n + 7) / 8;
          auto w = refStream(key, pos, nb);
          std::vector<bool> want(n);
          for (size_t i = 0; i < n; i++) want[i] = w[i / 8] >> (i % 8) & 1;
          vf::check(got == want, "stream-bits", [&] { return vf::cat("at ", pos, " n=", n); });
          pos += nb;
        } else if (kind == 2) {
          n = n % 64;
          auto got = prg->getRandomUInt64(n);
          auto w = refStream(key, pos, n * 8);
          std::vector<uint64_t> want(n, 0);
          for (size_t i = 0; i < n; i++) for (int j = 0; j < 8; j++) want[i] = want[i] << 8 | w[i * 8 + j];
          vf::check(got == want, "stream-words", [&] { return vf::cat("at ", pos, " n=", n); });
          pos += n * 8;
        } else {
          auto got = prg->getRandomM128i();
          auto want = refStream(key, pos, 16);
          vf::check(bytesOf(got) == want, "stream-block", [&] { return vf::cat("at ", pos); });
          pos += 16;
        }
        vf::count("stream_requests");
        shape += vf::cat(kind, ":", n, " ");
      }
      vf::count("stream_bytes", pos);
      vf::distinct(desc + shape);
      if (k < 3) vf::sample(desc + " | " + shape);
    });
  }
  // in-place generation shares one counter over calls
  for (size_t k = 0; k < vf::n(120, 3000); k++) {
    __m128i seed = rblock(r);
    vf::runCase(vf::cat("inplace seed=", hex(bytesOf(seed))), [&] {
      AesPrg p(seed);
      auto key = bytesOf(seed);
      size_t blk = 0;
      for (int q = 0; q < 12; q++) {
        size_t n = r.below(r.oneIn(5) ? 400 : 10);
        if (r.coin()) {
          std::vector<__m128i> d(n);
          p.getRandomDataInPlace(d);
          B got(n * 16);
          if (n) memcpy(got.data(), d.data(), n * 16);
          vf::check(got == refStream(key, blk * 16, n * 16), "inplace-data", [&] { return vf::cat("block ", blk, " n=", n); });
          blk += n;
        } else {
          std::vector<bool> b(n);
          p.getRandomBitsInPlace(b);
          size_t nb = (n + 127) / 128;
          auto w = refStream(key, blk * 16, nb * 16);
          bool ok = b.size() == n;
          for (size_t i = 0; ok && i < n; i++) ok = b[i] == (w[i / 8] >> (i % 8) & 1);
          vf::check(ok, "inplace-bits", [&] { return vf::cat("block ", blk, " n=", n); });
          blk += nb;
        }
        vf::count("inplace_requests");
      }
      for (int w = 0; w < 3; w++) {
        bool threw = false;
        try { if (w == 0) p.getRandomBytes(4); else if (w == 1) p.getRandomBits(4); else p.getRandomUInt64(1); }
        catch (const std::runtime_error&) { threw = true; }
        vf::check(threw, "unbuffered-prg-served-buffered-request", [&] { return vf::cat(w); });
      }
    });
  }
  // streams of different seeds share no block; system randomness does not repeat
  vf::runCase("seeds", [&] {
    std::set<B> seen;
    size_t tot = 0;
    for (int s = 0; s < 40; s++) {
      AesPrg p(_mm_set_epi64x(0, s), 64);
      for (int i = 0; i < 50; i++) { seen.insert(bytesOf(p.getRandomM128i())); tot++; }
    }
    vf::check(seen.size() == tot, "streams-share-a-block", [&] { return vf::cat(seen.size(), " of ", tot); });
    seen.clear();
    for (int i = 0; i < 300; i++) seen.insert(bytesOf(getRandomM128iFromSystemNoise()));
    vf::check(seen.size() == 300, "system-randomness-repeats", [&] { return vf::cat(seen.size()); });
    int ones[128] = {};
    for (auto& b : seen) for (int i = 0; i < 128; i++) ones[i] += b[i / 8] >> (i % 8) & 1;
    for (int i = 0; i < 128; i++) vf::check(ones[i] > 60 && ones[i] < 240, "system-randomness-constant-bit", [&] { return vf::cat("bit ", i, " set ", ones[i], "/300"); });
  });
}

static void bitCases() {
  auto r = vf::rng("bits");
  for (size_t k = 0; k < vf::n(2000, 100000); k++) {
    __m128i x = rblock(r);
    auto b = bytesOf(x);
    auto bit = [&](int i) { return (bool)(b[i / 8] >> (i % 8) & 1); };
    vf::runCase(vf::cat("bits ", hex(b)), [&] {
      vf::check(getLsb(x) == bit(0), "lsb", [&] { return ""; });
      vf::check(getMsb(x) == bit(127), "msb", [&] { return ""; });
      uint64_t lo; memcpy(&lo, b.data(), 8);
      vf::check(getLast64Bits(x) == lo, "last64", [&] { return ""; });
      int off = (int)r.below(128);
      auto y = x;
      lShiftByBitsInPlace(y, off);
      auto yb = bytesOf(y);
      bool ok = true;
      for (int i = 0; i < 128; i++) ok &= (yb[i / 8] >> (i % 8) & 1) == (i >= off ? bit(i - off) : false);
      vf::check(ok, "shift", [&] { return vf::cat("by ", off, " got ", hex(yb)); });
      size_t n = r.below(129);
      std::vector<bool> v(n);
      extractLnbToVector(x, v);
      ok = v.size() == n;
      for (size_t i = 0; ok && i < n; i++) ok = v[i] == bit((int)i);
      vf::check(ok, "extract-bits", [&] { return vf::cat("n=", n); });
      auto z = x; setLsbTo0(z); auto z1 = x; setLsbTo1(z1);
      auto w = b; w[0] &= 0xfe; auto w1 = b; w1[0] |= 1;
      vf::check(bytesOf(z) == w && bytesOf(z1) == w1, "set-lsb", [&] { return ""; });
      vf::check(same(buildM128i(b), x), "build-block", [&] { return ""; });
      if (k % 8 == 0) {
        B d(r.range(1, r.coin() ? 24 : 90));
        for (auto& c : d) c = (unsigned char)r.edgy(8);
        uint32_t m = (uint32_t)(r.oneIn(4) ? r.range(1, 5) : std::max<uint64_t>(1, r.edgy(32)));
        auto* ctx = BN_CTX_new();
        uint32_t got = mod(d, m, ctx);
        BN_CTX_free(ctx);
        unsigned __int128 acc = 0;
        for (size_t i = d.size(); i > 0; i--) acc = ((acc << 8) + d[i - 1]) % m;
        vf::check(got == (uint32_t)acc, "bytes-mod", [&] { return vf::cat(hex(d), " mod ", m, " got ", got, " want ", (uint32_t)acc); });
      }
      vf::count("bit_helpers");
    });
  }
  vf::runCase("extract-too-many", [&] {
    std::vector<bool> v(129);
    bool threw = false;
    try { extractLnbToVector(_mm_setzero_si128(), v); } catch (const std::runtime_error&) { threw = true; }
    vf::check(threw, "extract-beyond-128-accepted", [&] { return ""; });
  });
}

// length doubling: children depend on their parent and the level only, and no
// two (parent, level, side) share a child
static void expanderCases() {
  auto r = vf::rng("expander");
  std::set<B> seen;
  size_t made = 0;
  for (size_t k = 0; k < vf::n(60, 2000); k++) {
    int64_t index = (int64_t)k;
    size_t n = r.range(1, 40);
    vf::runCase(vf::cat("expand level=", index, " n=", n), [&] {
      std::vector<__m128i> src(n);
      for (auto& s : src) s = rblock(r);
      src[0] = _mm_set_epi64x(7, (long long)k); // never twice
      Expander e(index), e2(index);
      auto a = e.expand(std::vector<__m128i>(src));
      vf::check(a.size() == 2 * n, "expand-size", [&] { return vf::cat(a.size()); });
      bool ok = a.size() == 2 * n;
      for (size_t i = 0; ok && i < n; i++) {
        auto one = e2.expand(std::vector<__m128i>{src[i]});
        ok = one.size() == 2 && same(one[0], a[2 * i]) && same(one[1], a[2 * i + 1]);
      }
      vf::check(ok, "expand-depends-on-neighbours", [&] { return ""; });
      if (a.size() >= 2) { seen.insert(bytesOf(a[0])); seen.insert(bytesOf(a[1])); made += 2; }
      vf::count("expansions", n);
    });
  }
  vf::check(seen.size() == made, "expand-collision", [&] { return vf::cat(seen.size(), " of ", made); });
}

void vfMain() {
  expanderCases();
  cipherCases();
  streamCases();
  bitCases();
}
