// C16: what is written is what is stored.
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileWriter.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "fbpcf/io/api/LocalFileWriter.h"
#include "io.h"
#include "vfcloud.h"
using namespace io;
namespace fio = fbpcf::io;
namespace fs = std::filesystem;
using vfcloud::store;

static const char* kUrls[] = {"https://bucket.s3.us-west-2.amazonaws.com/dir/file.csv", "https://storage.cloud.google.com/bucket/dir/file.csv"};

// sizes of the pieces a content is written in
static std::vector<size_t> pieces(Rng& r, size_t len, size_t chunk) {
  std::vector<size_t> p;
  size_t at = 0;
  int style = (int)r.below(4);
  while (at < len || (p.size() < 3 && r.coin())) {
    size_t k = r.oneIn(12) ? 0 : style == 0 ? len - at : style == 1 ? 1 + r.below(10) : style == 2 ? chunk + r.below(3) - (chunk > 1 ? 1 : 0) : 1 + r.below(len - at + 1);
    k = std::min(k, len - at);
    p.push_back(k);
    at += k;
    if (p.size() > 4000) { p.push_back(len - at); break; }
  }
  return p;
}

// every way to read a local file gives the content
static void readsBack(const std::string& path, const std::string& s, const std::string& who, Rng& r) {
  auto raw = slurp(path);
  check(raw == s, "stored-bytes", [&] { return who + ": " + diff(raw, s); });
  if (raw != s) return;
  fbpcf::LocalFileManager m;
  auto a = m.read(path);
  check(a == s, "manager-read", [&] { return who + ": " + diff(a, s); });
  { std::stringstream ss; auto in = m.getInputStream(path); ss << in->get().rdbuf(); check(ss.str() == s, "manager-stream", [&] { return who + ": " + diff(ss.str(), s); }); }
  for (int i = 0; i < 3; i++) {
    size_t from = r.below(s.size() + 1), to = from + r.below(s.size() - from + (r.oneIn(4) ? 50 : 1));
    if (i == 1 && r.coin()) to = s.size() + r.below(3) * r.below(5000);
    if (i == 2) from = 0, to = s.size();
    auto b = m.readBytes(path, from, to);
    auto want = s.substr(from, to - from);
    count("ranges_compared");
    check(b == want, "manager-range", [&] { return cat(who, ": bytes ", from, " to ", to, ": ", diff(b, want)); });
  }
  for (int i = 0; i < 2; i++) {
    bool refused = false;
    try { m.readBytes(path, i ? s.size() + 1 + r.below(9) : 5, i ? s.size() + 20 : 4); } catch (const std::exception&) { refused = true; }
    check(refused, "bad-range-accepted", [&] { return who; });
  }
  fio::BufferedReader b(r.coin() ? std::unique_ptr<fio::IReaderCloser>(std::make_unique<fio::FileReader>(path)) : std::make_unique<fio::LocalFileReader>(path), chunkSize(r, s.size()));
  std::vector<char> buf(s.size() + 1);
  size_t n = s.empty() ? 0 : b.read(buf);
  check(n == s.size() && !memcmp(buf.data(), s.data(), n) && b.eof(), "reader-read", [&] { return who + ": " + diff(std::string(buf.data(), n), s); });
  count("files_read_back");
}

static void buffered() {
  auto r = rng("buffered");
  auto dir = scratchDir();
  for (size_t k = 0; k < n(2500, 30000); k++) {
    auto s = content(r, k % 40 == 0 ? 300000 : 6000);
    size_t chunk = chunkSize(r, s.size());
    int sink = (int)r.below(6);
    if (sink >= 4) chunk = std::max(chunk, s.size() / 5000 + 1); // S3 takes 10000 parts
    auto parts = pieces(r, s.size(), chunk);
    auto seed = r.next();
    static const char* names[] = {"memory", "memory", "local", "file", "S3", "GCS"};
    auto who = cat(names[sink], ", ", show(s), " in ", parts.size(), " pieces, chunk ", chunk);
    runCase(cat("buffered ", k, ": ", who), [&] {
      Rng d(seed);
      store().reset();
      store().gcsBuffer = 1 + d.below(5000);
      std::string mem;
      std::vector<size_t> sizes;
      std::string path = cat(dir, "/", d.oneIn(3) ? "nested/deeper/" : "", "out");
      if (d.oneIn(3) && sink >= 2 && sink <= 3) { fs::create_directories(fs::path(path).parent_path()); put(path, std::string(s.size() + d.below(100), '#')); } // replaces a longer file
      int form = (int)d.below(3); // write, writeString, mixed
      int end = (int)d.below(3);  // close, close twice, destructor
      {
        std::unique_ptr<fio::IWriterCloser> base;
        if (sink < 2) base = std::make_unique<MemoryWriter>(&mem, -1, 0, 0, &sizes);
        else if (sink == 2) base = std::make_unique<fio::LocalFileWriter>(path);
        else if (sink == 3) base = std::make_unique<fio::FileWriter>(path);
        else if (d.coin()) base = std::make_unique<fio::FileWriter>(kUrls[sink - 4]);
        else base = std::make_unique<fio::CloudFileWriter>(kUrls[sink - 4]);
        std::unique_ptr<fio::BufferedWriter> w;
        bool plain = sink >= 2 && d.oneIn(6);
        if (sink < 4 && d.oneIn(5)) w = std::make_unique<fio::BufferedWriter>(std::move(base)), chunk = 0;
        else if (!plain) w = std::make_unique<fio::BufferedWriter>(std::move(base), chunk);
        size_t at = 0;
        for (auto p : parts) {
          std::string piece = s.substr(at, p);
          size_t did;
          std::vector<char> v(piece.begin(), piece.end());
          if (w && (form == 1 || (form == 2 && d.coin()))) did = w->writeString(piece);
          else if (w) did = w->write(v);
          else did = base->write(v);
          check(did == p, "write-result", [&] { return cat(who, ": ", did, " for ", p, " bytes"); });
          at += p;
          count("pieces_written");
          if (w && d.oneIn(10)) { w->flush(); if (sink < 2) { check(mem == s.substr(0, at), "flush", [&] { return who + " after flush: " + diff(mem, s.substr(0, at)); }); count("flushes_compared"); } }
          if (sink < 2) check(s.compare(0, mem.size(), mem) == 0 && (chunk == 0 || at - mem.size() <= chunk), "order", [&] { return who + ": sink is not at most one chunk behind: " + diff(mem, s.substr(0, at)); });
        }
        fio::IWriterCloser& c = w ? (fio::IWriterCloser&)*w : *base;
        if (end < 2) check(c.close() == 0, "close-result", [&] { return who; });
        if (end == 1) check(c.close() == 0, "close-result", [&] { return who + ", second close"; });
      }
      if (sink < 2) check(mem == s, "stored-bytes", [&] { return who + ": " + diff(mem, s); });
      else if (sink < 4) readsBack(path, s, who, d);
      else {
        auto it = store().objects.find({"bucket", "dir/file.csv"});
        check(it != store().objects.end() && it->second == s, "stored-bytes", [&] { return who + ": " + (it == store().objects.end() ? std::string("no object") : diff(it->second, s)); });
        check(store().objects.size() == 1 && store().uploads.empty(), "stray-objects", [&] { return cat(who, ": ", store().objects.size(), " objects, ", store().uploads.size(), " uploads"); });
      }
      distinct(cat(sink, form, end, chunk, parts.size(), s.size(), std::hash<std::string>()(s)));
      for (auto& e : fs::directory_iterator(dir)) fs::remove_all(e.path());
    });
  }
}

// sinks that fail: what was accepted must not be dropped silently
static void failing() {
  auto r = rng("failing");
  for (size_t k = 0; k < n(1000, 10000); k++) {
    auto s = content(r, 3000);
    if (s.empty()) s = "x";
    size_t chunk = chunkSize(r, s.size());
    auto parts = pieces(r, s.size(), chunk);
    int kind = (int)r.below(5); // -1, short, nothing, exception, close
    int64_t at = kind == 4 ? -1 : (int64_t)r.below(r.coin() ? 2 : s.size() / chunk + 1);
    auto who = cat("sink failing at write ", at, kind == 0 ? " with -1" : kind == 1 ? " short" : kind == 2 ? " with nothing" : kind == 3 ? " by exception" : " on close", ", ", show(s), " in ", parts.size(), " pieces, chunk ", chunk);
    runCase(cat("failing ", k, ": ", who), [&] {
      std::string mem;
      bool reported = false;
      auto base = std::make_unique<MemoryWriter>(&mem, at, kind, kind == 4 ? -1 : 0);
      auto* raw = base.get();
      {
        fio::BufferedWriter w(std::move(base), chunk);
        try {
          size_t pos = 0;
          for (auto p : parts) { w.writeString(s.substr(pos, p)); pos += p; }
          if (w.close() != 0) reported = true;
        } catch (const std::exception&) { reported = true; }
        raw->failAt = -1; // let the destructor work
        if (reported) count("failures_reported");
        else check(mem == s, "failure-not-reported", [&] { return who + ": success reported, " + diff(mem, s); });
        if (kind == 4) check(reported, "failure-not-reported", [&] { return who; });
      }
      if (!reported) check(mem == s, "failure-not-reported", [&] { return who; });
      distinct(who);
    });
  }
  // a full device
  struct stat st;
  if (stat("/dev/full", &st) == 0)
    for (size_t k = 0; k < n(60, 500); k++) {
      size_t len = 1 + r.below(r.coin() ? 100 : 200000);
      std::string s(len, 'x');
      int way = (int)k % 6;
      auto who = cat("full device, ", len, " bytes, ", way);
      runCase(who, [&] {
        bool reported = false;
        auto put1 = [&](fio::IWriterCloser& w) { std::vector<char> v(s.begin(), s.end()); try { if (w.write(v) != len) reported = true; if (w.close() != 0) reported = true; } catch (const std::exception&) { reported = true; } };
        try {
          if (way == 0) { fio::LocalFileWriter w("/dev/full"); put1(w); }
          else if (way == 1) { fio::FileWriter w("/dev/full"); put1(w); }
          else if (way == 2) { fio::BufferedWriter w(std::make_unique<fio::FileWriter>("/dev/full"), 1 + r.below(300000)); put1(w); }
          else if (way == 3) fio::FileIOWrappers::writeFile("/dev/full", s);
          else if (way == 4) fbpcf::LocalFileManager().write("/dev/full", s);
          else { put(scratchDir() + "/src", s); fio::FileIOWrappers::transferFileInParts(scratchDir() + "/src", "/dev/full"); }
        } catch (const std::exception&) { reported = true; }
        check(reported, "failure-not-reported", [&] { return who; });
        count("full_device_writes");
        distinct(who);
      });
    }
  runCase("unwritable", [&] {
    auto d = scratchDir();
    put(d + "/plain", "x");
    fs::create_directories(d + "/isdir");
    for (auto& p : {d + "/plain/below", d + "/isdir"})
      for (int i = 0; i < 4; i++) {
        bool refused = false;
        try {
          if (i == 0) fio::LocalFileWriter w(p);
          if (i == 1) fio::FileWriter w(p);
          if (i == 2) fio::FileIOWrappers::writeFile(p, "y");
          if (i == 3) fbpcf::LocalFileManager().write(p, "y");
        } catch (const std::exception&) { refused = true; }
        check(refused, "failure-not-reported", [&] { return cat(p, " way ", i); });
      }
    for (int i = 0; i < 3; i++) {
      bool refused = false;
      try {
        if (i == 0) fbpcf::LocalFileManager().read(d + "/none");
        if (i == 1) fbpcf::LocalFileManager().readBytes(d + "/none", 0, 1);
        if (i == 2) fbpcf::LocalFileManager().copy(d + "/none", d + "/copy");
      } catch (const std::exception&) { refused = true; }
      check(refused, "missing-file", [&] { return cat(i); });
    }
    distinct("unwritable");
  });
}

// whole-file helpers and the local file manager
static void wholeFiles() {
  auto r = rng("whole");
  auto dir = scratchDir();
  for (size_t k = 0; k < n(600, 8000); k++) {
    auto s = content(r, k % 30 == 0 ? 400000 : 12000);
    int way = (int)r.below(4);
    auto seed = r.next();
    auto who = cat(way == 0 ? "writeFile" : way == 1 ? "manager write" : way == 2 ? "manager copy" : "transferFileInParts", ", ", show(s));
    runCase(cat("whole ", k, ": ", who), [&] {
      Rng d(seed);
      bool relative = d.oneIn(4);
      fs::path old = fs::current_path();
      std::string path = relative ? "vf-out" : cat(dir, "/", d.oneIn(3) ? "nested/deeper/" : "", "out");
      if (relative) fs::current_path(dir);
      struct Back { fs::path p; ~Back() { fs::current_path(p); } } back{old};
      if (d.oneIn(3)) { if (!relative) fs::create_directories(fs::path(path).parent_path()); put(path, std::string(s.size() + d.below(100), '#')); }
      auto src = dir + "/src";
      put(src, s);
      auto want = s;
      if (way == 0) fio::FileIOWrappers::writeFile(path, s);
      else if (way == 1) fbpcf::LocalFileManager().write(path, s);
      else if (way == 2) fbpcf::LocalFileManager().copy(src, path);
      else {
        // line by line: the last line gets its line break
        if (!want.empty() && want.back() != '\n') want += '\n';
        fio::FileIOWrappers::transferFileInParts(src, path);
      }
      readsBack(path, want, who, d);
      check(slurp(src) == s, "source-changed", [&] { return who; });
      distinct(cat(way, relative, s.size(), std::hash<std::string>()(s)));
      for (auto& e : fs::directory_iterator(dir)) fs::remove_all(e.path());
    });
  }
  for (size_t k = 0; k < n(3, 10); k++) { // the default chunk of cloud files is large
    auto s = content(r);
    runCase(cat("whole cloud ", k), [&] {
      store().reset();
      auto url = kUrls[k % 2];
      auto want = s;
      if (k < 2) fio::FileIOWrappers::writeFile(url, s);
      else {
        put(dir + "/src", s);
        if (!want.empty() && want.back() != '\n') want += '\n';
        fio::FileIOWrappers::transferFileInParts(dir + "/src", url);
      }
      auto it = store().objects.find({"bucket", "dir/file.csv"});
      check(it != store().objects.end() && it->second == want, "stored-bytes", [&] { return std::string(url); });
      distinct(cat("cloud", k));
    });
  }
}

void vfMain() {
  buffered();
  failing();
  wholeFiles();
}
