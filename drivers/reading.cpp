// C15: buffered reading.
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/LocalFileReader.h"
#include "fbpcf/io/cloud_util/S3Client.h"
#include "fbpcf/io/cloud_util/S3FileReader.h"
#include "io.h"
#include "vfcloud.h"
using namespace io;
namespace fio = fbpcf::io;
using vfcloud::store;

static const char* kUrls[] = {"https://bucket.s3.us-west-2.amazonaws.com/dir/file.csv", "https://bucket.s3-eu-north-1.amazonaws.com/dir/file.csv", "https://storage.cloud.google.com/bucket/dir/file.csv", "https://bucket.storage.googleapis.com/dir/file.csv", "https://storage.googleapis.com/bucket/dir/file.csv"};
static void putObject(const std::string& s) { store().objects[{"bucket", "dir/file.csv"}] = s; }

// Follow the reader with a position in the known content; false when the
// content must be read again from a failed source.
static void follow(fio::BufferedReader& b, const std::string& s, Rng r, int style, const std::string& who, int64_t failAt = -1, bool late = false) {
  size_t pos = 0;
  bool lineBefore = false;
  std::string how;
  for (size_t guard = 0; guard < s.size() * 2 + 50; guard++) {
    progress();
    bool e;
    try { e = b.eof(); } catch (const std::exception&) { return; }
    count("steps");
    if (late && lineBefore && e) count("late_ends");
    if (e != (pos == s.size()) && failAt < 0 && (!late || lineBefore || e)) { violation("end-of-file", cat(who, how, ": eof is ", e, " at ", pos, " of ", s.size())); return; }
    if (pos == s.size()) break;
    bool line = style == 0 || (style == 2 && r.coin());
    lineBefore = line;
    try {
      if (line) {
        auto l = b.readLine();
        auto nl = s.find('\n', pos);
        auto want = s.substr(pos, nl == std::string::npos ? std::string::npos : nl - pos);
        count("lines_compared");
        if (l != want) { violation(failAt >= 0 ? "invented-data" : "line-content", cat(who, how, ": line at ", pos, ": ", diff(l, want))); return; }
        pos = nl == std::string::npos ? s.size() : nl + 1;
        if (failAt >= 0 && pos > (size_t)failAt) { violation("invented-data", cat(who, ": line ending at ", pos, " although the source failed at ", failAt)); return; }
        if (how.size() < 120) how += " line";
      } else {
        size_t k = r.oneIn(8) ? 0 : r.oneIn(3) ? s.size() - pos + r.below(3) : 1 + r.below(r.coin() ? 5 : 3000);
        std::vector<char> buf(k, '?');
        auto n = b.read(buf);
        auto want = std::min(k, s.size() - pos);
        count("blocks_compared");
        if (failAt >= 0) want = std::min(want, n);
        if (n != want || buf.size() < n || memcmp(buf.data(), s.data() + pos, n)) {
          violation(failAt >= 0 ? "invented-data" : "block-content", cat(who, how, ": block of ", k, " at ", pos, ": ", n == want ? diff(std::string(buf.data(), std::min(n, buf.size())), s.substr(pos, n)) : cat("returned ", n)));
          return;
        }
        pos += n;
        if (failAt >= 0 && pos > (size_t)failAt) { violation("invented-data", cat(who, ": block ending at ", pos, " although the source failed at ", failAt)); return; }
        if (failAt >= 0 && k && n == 0) return; // nothing more came, nothing invented
        if (how.size() < 120) how += cat(" ", k);
      }
    } catch (const std::exception& e) {
      if (failAt >= 0) { count("failures_reported"); return; }
      violation("reading-failed", cat(who, how, ": at ", pos, " of ", s.size(), ": ", e.what()));
      return;
    }
  }
  // past the end
  if (failAt < 0)
    for (int i = 0; i < 2; i++) {
      bool refused = false;
      std::vector<char> buf(1 + r.below(5));
      try { if (i) b.readLine(); else if (b.read(buf) == 0 && late) refused = true; } catch (const std::exception&) { refused = true; }
      check(refused, "past-the-end", [&] { return who + (i ? ": line" : ": block") + " read at the end"; });
      count("reads_past_end");
    }
  else violation("invented-data", who + ": all of the content although the source failed");
}

static void buffered() {
  auto r = rng("buffered");
  auto dir = scratchDir();
  for (size_t k = 0; k < n(2000, 30000); k++) {
    auto s = content(r, k % 50 == 0 ? 200000 : 6000);
    size_t chunk = chunkSize(r, s.size());
    int source = (int)r.below(6), style = (int)r.below(3);
    auto seed = r.next();
    auto who = cat(source == 0 ? "memory" : source == 1 ? "memory, short reads" : source == 2 ? "local" : source == 3 ? "file" : source == 4 ? "cloud" : "memory, end known late", ", ", show(s), ", chunk ", chunk, style == 0 ? ", lines" : style == 1 ? ", blocks" : ", mixed");
    runCase(cat("buffered ", k, ": ", who), [&] {
      Rng d(seed);
      std::unique_ptr<fio::IReaderCloser> base;
      auto path = dir + "/in";
      int closes = 0;
      if (source < 2 || source == 5) {
        auto m = std::make_unique<MemoryReader>(s, source == 1 || (source == 5 && (seed & 1)), Rng(seed + 1), -1, 0, &closes);
        m->late = source == 5;
        base = std::move(m);
      }
      else if (source == 4) {
        store().reset();
        putObject(s);
        std::string url = kUrls[d.below(5)];
        if (d.coin()) base = std::make_unique<fio::CloudFileReader>(url);
        else base = std::make_unique<fio::FileReader>(url);
      } else {
        put(path, s);
        if (source == 2) base = std::make_unique<fio::LocalFileReader>(path);
        else base = std::make_unique<fio::FileReader>(path);
      }
      {
        std::unique_ptr<fio::BufferedReader> b;
        if (source != 4 && d.oneIn(5)) b = std::make_unique<fio::BufferedReader>(std::move(base)); // default chunk
        else b = std::make_unique<fio::BufferedReader>(std::move(base), chunk);
        follow(*b, s, d, style, who, -1, source == 5);
        if (d.coin() && (b->close(), source < 2)) check(closes > 0, "close", [&] { return who; });
      }
      if (source < 2) check(closes > 0, "source-closed", [&] { return who; });
      distinct(cat(source, style, chunk, s.size(), std::hash<std::string>()(s)));
    });
  }
}

// sources that fail at some byte
static void failing() {
  auto r = rng("failing");
  for (size_t k = 0; k < n(800, 10000); k++) {
    auto s = content(r, 3000);
    if (s.empty()) s = "x";
    size_t chunk = chunkSize(r, s.size());
    int64_t failAt = (int64_t)r.below(s.size());
    int kind = (int)r.below(3), style = (int)r.below(3);
    auto seed = r.next();
    auto who = cat("source failing at ", failAt, kind == 0 ? " with -1" : kind == 1 ? " with nothing" : " by exception", ", ", show(s), ", chunk ", chunk, style == 0 ? ", lines" : style == 1 ? ", blocks" : ", mixed");
    runCase(cat("failing ", k, ": ", who), [&] {
      fio::BufferedReader b(std::make_unique<MemoryReader>(s, seed & 1, Rng(seed), failAt, kind), chunk);
      follow(b, s, Rng(seed + 1), style, who, failAt);
      distinct(who);
    });
  }
  for (size_t k = 0; k < n(200, 2000); k++) {
    auto s = content(r, 3000);
    if (s.size() < 4) s = "abc\ndef\n";
    size_t chunk = 1 + r.below(s.size());
    int url = (int)r.below(5), nth = (int)r.below(3), partial = url >= 2 && r.coin();
    auto seed = r.next();
    auto who = cat(kUrls[url], ", ", show(s), ", chunk ", chunk, partial ? ", broken download " : ", failed request ", nth);
    runCase(cat("failing ", k, ": ", who), [&] {
      store().reset();
      putObject(s);
      auto seen = std::make_shared<int>(0);
      auto hit = std::make_shared<bool>(false);
      store().fault = [=](const vfcloud::Op& o) {
        if (o.kind != "get" && !(o.kind == "head" && nth == 2)) return vfcloud::Fault::None;
        if ((*seen)++ < nth && nth < 2) return vfcloud::Fault::None;
        *hit = true;
        return partial && o.kind == "get" ? vfcloud::Fault::Partial : vfcloud::Fault::Fail;
      };
      bool threw = false;
      std::string got;
      try {
        fio::BufferedReader b(std::make_unique<fio::FileReader>(kUrls[url]), chunk);
        std::vector<char> buf(777);
        for (int nothing = 0; nothing < 3 && !b.eof();) {
          progress();
          auto n = b.read(buf);
          if (n > buf.size()) { violation("invented-data", who + ": block larger than asked"); return; }
          got.append(buf.data(), n);
          nothing += n == 0;
          if (got.size() > s.size()) break;
        }
      } catch (const std::exception&) { threw = true; }
      check(s.compare(0, got.size(), got) == 0 && got.size() <= s.size(), "invented-data", [&] { return who + ": " + diff(got, s); });
      if (*hit) { check(threw, "failure-not-reported", [&] { return cat(who, ": ", got.size(), " bytes read and no error"); }); count("failures_reported"); }
      else check(!threw && got == s, "block-content", [&] { return who + ": " + diff(got, s); });
      store().reset();
      distinct(who);
    });
  }
}

// readers without buffer, and the reader given from outside
static void direct() {
  auto r = rng("direct");
  auto path = scratchDir() + "/in";
  for (size_t k = 0; k < n(400, 6000); k++) {
    auto s = content(r);
    int kind = (int)r.below(4);
    auto seed = r.next();
    auto who = cat(kind == 0 ? "local" : kind == 1 ? "file" : kind == 2 ? "cloud" : "cloud with given reader", ", ", show(s));
    runCase(cat("direct ", k, ": ", who), [&] {
      store().reset();
      putObject(s);
      put(path, s);
      Rng d(seed);
      std::string url = kUrls[d.below(kind == 3 ? 2 : 5)];
      std::unique_ptr<fio::IReaderCloser> b;
      if (kind == 0) b = std::make_unique<fio::LocalFileReader>(path);
      else if (kind == 1) b = std::make_unique<fio::FileReader>(d.coin() ? path : url);
      else if (kind == 2) b = std::make_unique<fio::CloudFileReader>(url);
      else b = std::make_unique<fio::CloudFileReader>(url, std::make_shared<fbpcf::cloudio::S3FileReader>(fbpcf::cloudio::S3Client::getInstance({.region = "us-west-2"})->getS3Client()));
      size_t pos = 0;
      while (pos < s.size()) {
        progress();
        if (b->eof()) { violation("end-of-file", cat(who, ": eof at ", pos)); return; }
        size_t want = 1 + d.below(d.coin() ? 20 : 5000);
        std::vector<char> buf(want, '?');
        auto n = b->read(buf);
        size_t exp = std::min(want, s.size() - pos);
        count("blocks_compared");
        if (n != exp || buf.size() < n || memcmp(buf.data(), s.data() + pos, n)) { violation("block-content", cat(who, ": block of ", want, " at ", pos, " returned ", n)); return; }
        pos += n;
      }
      check(b->eof(), "end-of-file", [&] { return who + ": no eof at the end"; });
      // nothing more comes
      std::vector<char> buf(4, '?');
      size_t n = 0;
      try { n = b->read(buf); } catch (const std::exception&) {}
      check(n == 0 || n == (size_t)-1, "past-the-end", [&] { return cat(who, ": ", n, " bytes after the end"); });
      count("reads_past_end");
      b->close();
      distinct(who);
    });
  }
  runCase("missing file", [&] {
    for (auto& p : {scratchDir() + "/nothing", scratchDir() + "/no/such/dir/file"})
      for (int i = 0; i < 2; i++) {
        bool refused = false;
        try { if (i) fio::LocalFileReader x(p); else fio::FileReader x(p); } catch (const std::exception&) { refused = true; }
        check(refused, "missing-file", [&] { return p; });
      }
    store().reset();
    for (auto u : kUrls) {
      bool refused = false;
      try { fio::FileReader x(u); } catch (const std::exception&) { refused = true; }
      check(refused, "missing-file", [&] { return std::string(u); });
    }
    distinct("missing");
  });
}

// whole-file helpers: every line followed by a line break; CSV fields trimmed
static std::string trim(const std::string& s) {
  size_t a = 0, b = s.size();
  while (a < b && isspace((unsigned char)s[a])) a++;
  while (b > a && isspace((unsigned char)s[b - 1])) b--;
  return s.substr(a, b - a);
}
static std::vector<std::string> fields(const std::string& line) {
  auto t = trim(line);
  std::vector<std::string> f;
  size_t at = 0;
  for (;;) {
    auto c = t.find(',', at);
    f.push_back(trim(t.substr(at, c == std::string::npos ? std::string::npos : c - at)));
    if (c == std::string::npos) return f;
    at = c + 1;
  }
}
static void helpers() {
  auto r = rng("helpers");
  auto path = scratchDir() + "/in";
  for (size_t k = 0; k < n(400, 6000); k++) {
    auto s = content(r, 12000);
    runCase(cat("helpers ", k, ": ", show(s)), [&] {
      bool cloud = k == 7;
      std::string p = cloud ? kUrls[k / 7 % 5] : path.c_str();
      store().reset();
      putObject(s);
      put(path, s);
      auto want = s;
      if (!want.empty() && want.back() != '\n') want += '\n';
      auto got = fio::FileIOWrappers::readFile(p);
      check(got == want, "whole-file", [&] { return diff(got, want); });
      count("files_compared");
      if (cloud) return;
      if (s.empty()) {
        bool refused = false;
        try { fio::FileIOWrappers::readCsv(p, [](auto&, auto&) {}, [](auto&) {}); } catch (const std::exception&) { refused = true; }
        check(refused, "past-the-end", [] { return std::string("header of an empty file"); });
        return;
      }
      std::vector<std::vector<std::string>> wantRows, rows;
      for (size_t at = 0; at < want.size();) { auto e = want.find('\n', at); wantRows.push_back(fields(want.substr(at, e - at))); at = e + 1; }
      bool headerFirst = true;
      std::vector<std::string> head;
      fio::FileIOWrappers::readCsv(
          p,
          [&](const std::vector<std::string>& h, const std::vector<std::string>& parts) { check(h == head, "csv-header", [] { return std::string("a row got another header"); }); rows.push_back(parts); },
          [&](const std::vector<std::string>& h) { headerFirst = headerFirst && rows.empty(); head = h; rows.push_back(h); });
      check(headerFirst && rows == wantRows, "csv-rows", [&] {
        size_t i = 0;
        while (i < rows.size() && i < wantRows.size() && rows[i] == wantRows[i]) i++;
        return cat(rows.size(), " rows for ", wantRows.size(), ", first difference in row ", i);
      });
      count("csv_rows_compared", rows.size());
      distinct(show(s) + str(std::hash<std::string>()(s)));
    });
  }
}

void vfMain() {
  buffered();
  failing();
  direct();
  helpers();
}
