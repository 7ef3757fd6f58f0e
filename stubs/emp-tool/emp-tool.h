// Stand-in for emp-tool (not installed here): the types the code base names.
// emp::IKNP is a plain insecure correlated OT over the given io, so the code
// around it can run; nothing here claims to test emp itself.
#pragma once
#include <emmintrin.h>
#include <smmintrin.h>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <memory>
#include <random>
#include <string>
#include <vector>
namespace emp {
using block = __m128i;
enum { PUBLIC = 0, ALICE = 1, BOB = 2, XOR = -1 };
inline void block_to_bool(bool* data, block b) {
  uint64_t lo = _mm_extract_epi64(b, 0), hi = _mm_extract_epi64(b, 1);
  for (int i = 0; i < 64; i++) { data[i] = lo >> i & 1; data[64 + i] = hi >> i & 1; }
}
struct Group {
  std::vector<unsigned char> buf;
  unsigned char* scratch = nullptr;
  void resize_scratch(size_t n) { if (buf.size() < n) buf.resize(n); scratch = buf.data(); }
};
struct Point {
  Group* group = nullptr;
  std::vector<unsigned char> bin;
  size_t size() { return bin.size(); }
  void to_bin(unsigned char* o, size_t n) { memcpy(o, bin.data(), n); }
  void from_bin(Group* g, const unsigned char* i, size_t n) { group = g; bin.assign(i, i + n); }
};
template <class IO>
struct IKNP {
  IO* io;
  bool d[128];
  explicit IKNP(IO* i) : io(i) {}
  void setup_send(const bool* delta) { memcpy(d, delta, 128); }
  void setup_recv() {}
  block delta() {
    uint64_t lo = 0, hi = 0;
    for (int i = 0; i < 64; i++) { lo |= (uint64_t)d[i] << i; hi |= (uint64_t)d[64 + i] << i; }
    return _mm_set_epi64x((long long)hi, (long long)lo);
  }
  void send_cot(block* out, int64_t n) {
    std::random_device rd; std::mt19937_64 e(rd());
    for (int64_t i = 0; i < n; i++) out[i] = _mm_set_epi64x((long long)e(), (long long)e());
    block dl = delta();
    io->send_block(&dl, 1);
    if (n) io->send_block(out, (int)n);
    io->flush();
  }
  void recv_cot(block* out, const bool* b, int64_t n) {
    block dl;
    io->recv_block(&dl, 1);
    if (n) io->recv_block(out, (int)n);
    for (int64_t i = 0; i < n; i++) if (b[i]) out[i] = _mm_xor_si128(out[i], dl);
  }
};
template <class T>
class IOChannel {
 public:
  void send_data(const void* d, int64_t n) { static_cast<T*>(this)->send_data_internal(d, n); }
  void recv_data(void* d, int64_t n) { static_cast<T*>(this)->recv_data_internal(d, n); }
};
// a connection within the process, found by port; what it was asked for is kept
struct Rendezvous;
class NetIO : public IOChannel<NetIO> {
 public:
  NetIO(const char* address, int port, bool quiet = false);
  void send_data_internal(const void* d, int64_t n);
  void recv_data_internal(void* d, int64_t n);
  void flush() {}
  std::string address;
  bool server;
  int port;
  std::shared_ptr<Rendezvous> r;
};
// who was set up on which channel, per thread
inline thread_local void* setupIo = nullptr;
inline thread_local int setupParty = 0;
template <class IO> void setup_semi_honest(IO* io, int party) { setupIo = io; setupParty = party; }
struct Integer {
  int size = 0; int64_t value = 0; int party = 0;
  Integer() = default;
  Integer(int n, int64_t v, int p = PUBLIC) : size(n), value(v), party(p) {}
};
struct Bit {
  bool bit = false; int party = 0;
  Bit() = default;
  Bit(bool b, int p = PUBLIC) : bit(b), party(p) {}
};
} // namespace emp
using namespace emp;
