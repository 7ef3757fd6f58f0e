// Contents and sources for the I/O checks.
#pragma once
#include <algorithm>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "fbpcf/io/api/IReaderCloser.h"
#include "fbpcf/io/api/IWriterCloser.h"
#include "vf.h"

namespace io {
using namespace vf;
inline std::string content(Rng& r, size_t maxLen = 20000) {
  size_t len = r.oneIn(12) ? 0 : r.oneIn(6) ? 1 + r.below(4) : r.oneIn(3) ? r.below(200) : r.below(maxLen);
  if (maxLen >= 3000 && r.oneIn(8)) { // about the size of blocks
    len = (r.coin() ? 4096 * (1 + r.below(4)) : (size_t)1 << (6 + r.below(8)));
    if (r.oneIn(3)) len += r.coin() ? 1 : -1;
  }
  int kind = (int)r.below(6);
  size_t nl = r.oneIn(5) ? 2 : r.oneIn(3) ? 5000 : 1 + r.below(60); // mean distance of line breaks
  std::string s;
  s.reserve(len);
  for (size_t i = 0; i < len; i++) {
    if (r.oneIn(nl)) { s += '\n'; continue; }
    switch (kind) {
      case 0: s += (char)('a' + r.below(26)); break;
      case 1: s += (char)r.below(256); break;
      case 2: s += r.oneIn(4) ? '\0' : (char)('0' + r.below(10)); break;
      case 3: s += r.oneIn(4) ? '\xff' : '\r'; break;
      case 4: s += r.oneIn(5) ? ',' : r.oneIn(5) ? ' ' : (char)('a' + r.below(5)); break;
      default: s += "\n\0\xff\x1a \t"[r.below(6)];
    }
  }
  if (len && r.coin()) s.back() = '\n';
  return s;
}
inline std::string show(const std::string& s) {
  std::string o = cat(s.size(), " bytes");
  if (s.size() <= 40) { o += " \""; for (unsigned char c : s) { char b[8]; if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; } o += "\""; }
  return o;
}
inline size_t chunkSize(Rng& r, size_t len) {
  switch (r.below(7)) {
    case 0: return 1;
    case 1: return 1 + r.below(8);
    case 2: return len ? len : 1;
    case 3: return len + 1 + r.below(3);
    case 4: return len > 2 ? 1 + r.below(len - 1) : 2;
    case 5: return 4096;
    default: return 1 + r.below(300);
  }
}
inline void put(const std::string& path, const std::string& s) {
  std::ofstream f(path, std::ios::binary | std::ios::trunc);
  f.write(s.data(), s.size());
  f.close();
  if (!f) throw std::runtime_error("harness cannot write " + path);
}
inline std::string slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  if (!f) throw std::runtime_error("harness cannot read " + path);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
inline std::string diff(const std::string& got, const std::string& want) {
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  return cat("got ", show(got), ", want ", show(want), ", first difference at ", i);
}
// an in-memory source that may deliver less than asked, or fail
struct MemoryReader : fbpcf::io::IReaderCloser {
  std::string data; size_t at = 0; bool shortReads; Rng r; int64_t failAt; int failKind; int* closes; int failures = 0;
  bool late = false, empty = false; // late: like a stream, the end is known only after reading nothing
  MemoryReader(std::string d, bool sh, Rng g, int64_t fa = -1, int fk = 0, int* c = nullptr) : data(std::move(d)), shortReads(sh), r(g), failAt(fa), failKind(fk), closes(c) { filepath_ = "memory"; }
  size_t read(std::vector<char>& b) override {
    size_t n = std::min(b.size(), data.size() - at);
    if (shortReads && n > 1) n = 1 + r.below(n);
    if (failAt >= 0 && at + n > (size_t)failAt) {
      if (at < (size_t)failAt) n = failAt - at;
      else {
        if (++failures > 2000) { violation("endless-reading", cat("asked ", failures, " times after the source failed at ", failAt)); throw std::runtime_error("endless"); }
        count("source_failures");
        if (failKind == 0) return (size_t)-1;
        if (failKind == 1) return 0;
        throw std::runtime_error("source failed");
      }
    }
    std::copy(data.begin() + at, data.begin() + at + n, b.begin());
    at += n;
    empty = empty || (n == 0 && !b.empty());
    return n;
  }
  bool eof() override { return late ? empty : at == data.size(); }
  int close() override { if (closes) (*closes)++; return 0; }
};
// an in-memory sink that may fail at the k-th write
struct MemoryWriter : fbpcf::io::IWriterCloser {
  std::string* data; int64_t failAt; int failKind; int64_t calls = 0; int closeResult; std::vector<size_t>* sizes;
  MemoryWriter(std::string* d, int64_t fa = -1, int fk = 0, int cr = 0, std::vector<size_t>* sz = nullptr) : data(d), failAt(fa), failKind(fk), closeResult(cr), sizes(sz) { filepath_ = "memory"; }
  size_t write(std::vector<char>& b) override {
    if (failAt >= 0 && calls++ >= failAt) {
      count("sink_failures");
      if (failKind == 0) return (size_t)-1;
      if (failKind == 1) return b.empty() ? 0 : b.size() - 1;
      if (failKind == 2) return 0;
      throw std::runtime_error("sink failed");
    }
    if (sizes) sizes->push_back(b.size());
    data->append(b.begin(), b.end());
    return b.size();
  }
  int close() override { return closeResult; }
};
} // namespace io
