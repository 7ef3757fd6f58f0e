// C17: remote objects are stored whole or reported as failed.
#include <thread>
#include <google/cloud/storage/client.h>
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/GCSInputStream.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/S3InputStream.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
#include "fbpcf/io/api/CloudFileWriter.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/cloud_util/GCSFileReader.h"
#include "fbpcf/io/cloud_util/GCSFileUploader.h"
#include "fbpcf/io/cloud_util/S3Client.h"
#include "fbpcf/io/cloud_util/S3FileReader.h"
#include "fbpcf/io/cloud_util/S3FileUploader.h"
#include "io.h"
#include "vfcloud.h"
using namespace io;
namespace fio = fbpcf::io;
namespace cio = fbpcf::cloudio;
using vfcloud::Fault;
using vfcloud::Op;
using vfcloud::store;

struct Where { std::string url, bucket, key, region; bool s3; };
static Where where(Rng& r, int s3 = -1) {
  static const char* regions[] = {"us-west-2", "eu-north-1", "ap-southeast-3"};
  static const char* keys[] = {"file.csv", "dir/file.csv", "a/b/c/d.bin"};
  static const char* buckets[] = {"bucket", "my-bucket-7"};
  Where w;
  w.s3 = s3 < 0 ? r.coin() : s3;
  w.bucket = buckets[r.below(2)];
  w.key = keys[r.below(3)];
  if (w.s3) {
    w.region = regions[r.below(3)];
    w.url = cat("https://", w.bucket, r.coin() ? ".s3." : ".s3-", w.region, ".amazonaws.com/", w.key);
  } else
    switch (r.below(3)) {
      case 0: w.url = cat("https://storage.cloud.google.com/", w.bucket, "/", w.key); break;
      case 1: w.url = cat("https://", w.bucket, ".storage.googleapis.com/", w.key); break;
      default: w.url = cat("https://storage.googleapis.com/", w.bucket, "/", w.key);
    }
  return w;
}

// a schedule of faults by request kind
struct Plan {
  std::map<std::string, std::vector<Fault>> at; // by number of the request of that kind
  std::map<std::string, Fault> rest;            // afterwards
  std::map<std::string, size_t> seen;
  std::string text;
  size_t fired = 0;
  bool lostComplete = false, abortFailed = false, createLost = false;
  bool onlyIsolatedParts = true; // no other fault than single failures of part requests
  Fault next(const Op& o) {
    size_t k = seen[o.kind]++;
    Fault f = Fault::None;
    auto it = at.find(o.kind);
    if (it != at.end() && k < it->second.size()) f = it->second[k];
    else if (rest.count(o.kind)) f = rest[o.kind];
    if (f != Fault::None) {
      fired++;
      if (o.kind == "complete" && f == Fault::FailAfter) lostComplete = true;
      if (o.kind == "abort") abortFailed = true;
      if (o.kind == "create" && f == Fault::FailAfter) createLost = true;
    }
    return f;
  }
};
static std::shared_ptr<Plan> plan(Rng& r, std::vector<std::string> kinds, int style = -1) {
  auto p = std::make_shared<Plan>();
  if (style < 0) style = (int)r.below(6);
  auto name = [](Fault f) { return f == Fault::None ? "." : f == Fault::Fail ? "F" : f == Fault::FailAfter ? "L" : "P"; };
  auto any = [&] { return r.oneIn(3) ? Fault::FailAfter : Fault::Fail; };
  if (style == 0) { p->text = "no faults"; return p; }
  if (style == 1) { // single failures of parts
    auto& v = p->at["part"];
    for (size_t i = 0; i < 200; i++) v.push_back(i % 2 == 0 && r.coin() ? any() : Fault::None);
    p->text = "isolated part failures";
    return p;
  }
  p->onlyIsolatedParts = false;
  for (auto& k : kinds) {
    if (style == 2 && !r.oneIn(3)) continue;
    auto& v = p->at[k];
    size_t len = r.below(k == "part" ? 30 : 4);
    size_t rate = style == 3 ? 2 : style == 4 ? 8 : 3;
    for (size_t i = 0; i < len; i++) v.push_back(r.oneIn(rate) ? any() : Fault::None);
    if (style == 5 && len > 2) std::fill(v.begin() + len / 2, v.end(), Fault::Fail); // a burst
    if (r.oneIn(style == 4 ? 8 : 4)) p->rest[k] = any();
    p->text += " " + k + ":";
    for (size_t i = 0; i < v.size(); i++) p->text += name(v[i]);
    if (p->rest.count(k)) p->text += cat(name(p->rest[k]), "*");
  }
  return p;
}
static void arm(const std::shared_ptr<Plan>& p) { store().fault = [p](const Op& o) { return p->next(o); }; }

static void uploads() {
  auto r = rng("uploads");
  auto dir = scratchDir();
  for (size_t k = 0; k < n(5000, 60000); k++) {
    auto s = content(r, 4000);
    auto w = where(r);
    int way = (int)r.below(k % 30 == 0 ? 7 : 5); // uploader, cloud writer, file writer, buffered writer x2, writeFile, transfer
    int after = (int)r.below(3);                  // what the caller does after a failure
    size_t chunk = 1 + r.below(r.coin() ? 50 : 3000);
    if (k % 100 == 50) chunk = s.size() / 4000 + 1 + r.below(2); // parts by the hundred
    else chunk = std::max(chunk, s.size() / 60 + 1);
    auto p = plan(r, {"create", "part", "complete", "abort"});
    auto seed = r.next();
    bool old = r.oneIn(3);
    static const char* names[] = {"uploader", "cloud writer", "file writer", "buffered writer", "buffered writer", "writeFile", "transfer"};
    auto who = cat(names[way], " to ", w.s3 ? "S3" : "GCS", ", ", show(s), " by ", chunk, ", after failure ", after == 0 ? "stop" : after == 1 ? "go on" : "drop", ", faults ", p->text);
    runCase(cat("uploads ", k, ": ", who), [&] {
      Rng d(seed);
      store().reset();
      store().gcsBuffer = 1 + d.below(2 * chunk);
      std::string before = "previous object";
      if (old) store().objects[{w.bucket, w.key}] = before;
      arm(p);
      bool created = true, failed = false, completed = false;
      size_t partFailures = 0;
      auto want = s;
      if (way < 3) {
        std::unique_ptr<cio::IFileUploader> up;
        std::unique_ptr<fio::IWriterCloser> wr;
        try {
          if (way == 0) up = cio::getCloudFileUploader(w.url);
          else if (way == 1) wr = std::make_unique<fio::CloudFileWriter>(w.url);
          else wr = std::make_unique<fio::FileWriter>(w.url);
        } catch (const std::exception&) { created = false; failed = true; }
        if (created) {
          bool stop = false;
          for (size_t at = 0; at < s.size() && !stop;) {
            size_t len = std::min(s.size() - at, d.oneIn(3) ? 1 + d.below(chunk) : chunk);
            std::vector<char> v(s.begin() + at, s.begin() + at + len);
            size_t did = 0;
            try { did = up ? (size_t)up->upload(v) : wr->write(v); } catch (const std::exception&) {}
            count("parts_written");
            if (did != len) { failed = true; partFailures++; if (after != 1) stop = true; }
            at += len;
          }
          // an uploader is either completed or, after a failed part, dropped
          if (!(after == 2 && failed)) {
            completed = true;
            try { if ((up ? up->complete() : wr->close()) != 0) failed = true; } catch (const std::exception&) { failed = true; }
          } else failed = true;
        }
      } else if (way < 5) {
        try {
          fio::BufferedWriter b(std::make_unique<fio::FileWriter>(w.url), chunk);
          try {
            for (size_t at = 0; at < s.size();) {
              size_t len = std::min(s.size() - at, 1 + d.below(2 * chunk));
              b.writeString(s.substr(at, len));
              at += len;
              if (d.oneIn(10)) b.flush();
            }
            if (b.close() != 0) failed = true;
          } catch (const std::exception&) { failed = true; }
        } catch (const std::exception&) { failed = true; created = false; }
      } else {
        try {
          if (way == 5) fio::FileIOWrappers::writeFile(w.url, s);
          else {
            put(dir + "/src", s);
            if (!want.empty() && want.back() != '\n') want += '\n';
            fio::FileIOWrappers::transferFileInParts(dir + "/src", w.url);
          }
        } catch (const std::exception&) { failed = true; }
      }
      store().fault = nullptr;
      auto it = store().objects.find({w.bucket, w.key});
      bool has = it != store().objects.end();
      count(failed ? "failed_uploads" : "finished_uploads");
      count("store_requests", store().log.size());
      if (!failed) {
        check(has && it->second == want, "success-without-object", [&] { return who + ": " + (has ? diff(it->second, want) : std::string("no object")); });
        check(store().uploads.empty() || p->createLost, "dangling-upload", [&] { return who; });
      } else {
        bool whole = has && it->second == want, previous = old && has && it->second == before;
        if (!p->lostComplete || !whole)
          check(old ? previous : !has, "failure-left-object", [&] { return who + ": " + (has ? diff(it->second, want) : std::string("the previous object is gone")); });
        check(p->fired > 0, "failed-without-fault", [&] { return who; });
        if (!store().uploads.empty() && !p->abortFailed && !p->createLost) violation("dangling-upload", who);
        if (p->abortFailed) count("failed_aborts");
      }
      if (w.s3 && p->onlyIsolatedParts) check(!failed, "part-not-retried", [&] { return who; });
      check(store().objects.size() <= 1, "stray-object", [&] { return who; });
      // requests: bounded retries, the right place
      size_t streak = 0, total = 0;
      int part = 0;
      for (auto& o : store().log) {
        if (o.kind == "part") {
          streak = o.part == part && w.s3 ? streak + 1 : 1;
          part = o.part;
          total++;
          check(streak <= 40, "unbounded-retries", [&] { return cat(who, ": ", streak, " requests for one part"); });
        }
        if (w.s3) check(o.region == w.region, "region", [&] { return cat(who, ": request to region ", o.region, ", URL names ", w.region); });
        if (o.kind != "abort") check(o.bucket == w.bucket && o.key == w.key, "place", [&] { return cat(who, ": request for ", o.bucket, "/", o.key); });
      }
      (void)completed; (void)partFailures; (void)total;
      distinct(cat(way, after, w.s3, p->text, s.size(), chunk));
    });
  }
  // S3 refuses all but last parts below 5 MiB
  for (int k = 0; k < (int)n(2, 6); k++)
    runCase(cat("part size ", k), [&] {
      store().reset();
      store().minPart = 5 << 20;
      auto w = where(r, 1);
      std::string s(12000000 + r.below(100), 'x');
      for (size_t i = 0; i < s.size(); i += 1 + r.below(5000)) s[i] = (char)r.below(256);
      if (k % 2) fio::FileIOWrappers::writeFile(w.url, s);
      else {
        fio::BufferedWriter b(std::make_unique<fio::FileWriter>(w.url));
        for (size_t at = 0; at < s.size(); at += 100000) b.writeString(s.substr(at, 100000));
        check(b.close() == 0, "default-part-size", [] { return std::string("upload of 12 MB failed"); });
      }
      check(store().objects[{w.bucket, w.key}] == s, "default-part-size", [] { return std::string("object differs"); });
      distinct(cat("part size", k));
    });
}

static std::unique_ptr<fbpcf::IFileManager> manager(const Where& w) {
  if (w.s3) return std::make_unique<fbpcf::S3FileManager>(fbpcf::aws::createS3Client(fbpcf::aws::S3ClientOption{.region = w.region}));
  return std::make_unique<fbpcf::GCSFileManager<google::cloud::storage::Client>>(fbpcf::gcp::createGCSClient());
}

static void downloads() {
  auto r = rng("downloads");
  for (size_t k = 0; k < n(4000, 40000); k++) {
    auto s = content(r, 6000);
    auto w = where(r);
    int way = (int)r.below(9); // reader range, manager range, manager whole, manager stream, utility, length, file reader, reader beyond, missing object
    Fault f = r.oneIn(3) ? (r.coin() ? Fault::Fail : Fault::Partial) : Fault::None;
    if (w.s3 && f == Fault::Partial) f = Fault::FailAfter;
    size_t from = r.below(s.size() + 1), to = from + r.below(s.size() - from + (r.oneIn(4) ? 100 : 1));
    if (r.oneIn(6)) to = from;
    auto who = cat(w.s3 ? "S3" : "GCS", " way ", way, ", ", show(s), ", bytes ", from, " to ", to, ", fault ", (int)f);
    runCase(cat("downloads ", k, ": ", who), [&] {
      store().reset();
      if (way != 8) store().objects[{w.bucket, w.key}] = s;
      store().objects[{w.bucket, "other"}] = "another object";
      store().objects[{"elsewhere", w.key}] = "another object";
      bool hit = false;
      if (f != Fault::None) store().fault = [&](const Op&) { hit = true; return f; };
      std::string got, want;
      bool threw = false, mustThrow = false, mayThrow = false;
      try {
        switch (way) {
          case 0: case 1:
            want = s.substr(from, to - from);
            // an empty range has no bytes to request
            mayThrow = from == to || from >= s.size();
            got = way == 0 ? cio::getCloudFileReader(w.url)->readBytes(w.url, from, to) : manager(w)->readBytes(w.url, from, to);
            break;
          case 2: want = s; got = manager(w)->read(w.url); break;
          case 3: {
            if (!w.s3 && f == Fault::Partial) return;
            want = s;
            std::stringstream ss;
            auto in = manager(w)->getInputStream(w.url);
            ss << in->get().rdbuf();
            got = ss.str();
            break;
          }
          case 4: {
            if (!w.s3) return;
            want = s;
            got = fio::read(w.url);
            std::stringstream ss;
            auto in = fio::getInputStream(w.url);
            ss << in->get().rdbuf();
            check(ss.str() == s, "downloaded-bytes", [&] { return who + " (stream)"; });
            break;
          }
          case 5: want = cat(s.size()); got = cat(cio::getCloudFileReader(w.url)->getFileContentLength(w.url)); break;
          case 6: {
            want = s;
            fio::FileReader c(w.url);
            while (!c.eof()) {
              std::vector<char> b(1 + r.below(3000));
              auto m = c.read(b);
              if (m > b.size() || m == 0 || got.size() > s.size()) { got += "<bad read>"; break; }
              got.append(b.data(), m);
            }
            break;
          }
          case 7:
            mustThrow = true;
            got = r.coin() ? cio::getCloudFileReader(w.url)->readBytes(w.url, s.size() + r.below(5), s.size() + 5 + r.below(5)) : manager(w)->readBytes(w.url, s.size() + 3, s.size() + 9);
            break;
          default:
            mustThrow = true;
            if (r.coin()) got = manager(w)->read(w.url);
            else if (r.coin()) got = cio::getCloudFileReader(w.url)->readBytes(w.url, 0, 5);
            else got = cat(cio::getCloudFileReader(w.url)->getFileContentLength(w.url));
        }
      } catch (const std::exception&) { threw = true; }
      // a length can be answered although a download would break off
      if (f == Fault::Partial && s.empty()) mayThrow = true;
      bool faulty = hit && !(f == Fault::Partial && (way == 5 || s.empty()));
      count(threw ? "download_errors" : "downloads_compared");
      if (mustThrow) check(threw, "error-swallowed", [&] { return who + ": " + show(got); });
      else if (faulty) {
        // a reader that asks again for what is missing may still deliver everything
        bool resumed = way == 6 && f == Fault::Partial && got == want;
        check(threw || resumed, "error-swallowed", [&] { return who + ": " + diff(got, want); });
      } else if (threw) check(mayThrow, "download-failed", [&] { return who; });
      else check(got == want, "downloaded-bytes", [&] { return who + ": " + diff(got, want); });
      for (auto& o : store().log) {
        if (w.s3) check(o.region == w.region, "region", [&] { return cat(who, ": request to region ", o.region, ", URL names ", w.region); });
        check(o.bucket == w.bucket && o.key == w.key, "place", [&] { return cat(who, ": request for ", o.bucket, "/", o.key); });
      }
      store().fault = nullptr;
      distinct(cat(w.url, way, s.size(), from, to, (int)f));
    });
  }
}

// writing and copying through the file managers
static void managers() {
  auto r = rng("managers");
  auto dir = scratchDir();
  for (size_t k = 0; k < n(1500, 20000); k++) {
    auto s = content(r, 6000);
    auto w = where(r);
    int way = (int)r.below(4); // write, copy, utility, copy of a missing file
    auto p = plan(r, {"put", "create", "part", "complete", "abort"}, r.coin() ? 0 : -1);
    bool old = r.oneIn(3);
    auto who = cat(w.s3 ? "S3" : "GCS", way == 0 ? " write" : way == 1 ? " copy" : way == 2 ? " utility" : " copy of nothing", ", ", show(s), ", faults ", p->text);
    runCase(cat("managers ", k, ": ", who), [&] {
      if (way == 2 && !w.s3) return;
      store().reset();
      store().gcsBuffer = 1 + r.below(4000);
      if (old) store().objects[{w.bucket, w.key}] = "previous object";
      arm(p);
      bool failed = false;
      try {
        if (way == 0) manager(w)->write(w.url, s);
        else if (way == 1) { put(dir + "/src", s); manager(w)->copy(dir + "/src", w.url); }
        else if (way == 2) fio::write(w.url, s);
        else manager(w)->copy(dir + "/none", w.url);
      } catch (const std::exception&) { failed = true; }
      store().fault = nullptr;
      auto it = store().objects.find({w.bucket, w.key});
      bool has = it != store().objects.end();
      bool lost = false; // the store did it but its answer was lost
      for (auto& o : store().log) if (!o.ok && (o.kind == "put" || o.kind == "complete")) lost = true;
      bool prev = old ? has && it->second == "previous object" : !has;
      count(failed ? "failed_writes" : "finished_writes");
      if (way == 3) check(failed && prev, "missing-source", [&] { return who + (failed ? ": changed the object" : ": not reported"); });
      else if (!failed) check(has && it->second == s, "success-without-object", [&] { return who + ": " + (has ? diff(it->second, s) : std::string("no object")); });
      else {
        check(p->fired > 0, "failed-without-fault", [&] { return who; });
        check(prev || (lost && has && it->second == s), "failure-left-object", [&] { return who + ": " + (has ? diff(it->second, s) : std::string("gone")); });
      }
      for (auto& o : store().log) {
        if (w.s3) check(o.region == w.region, "region", [&] { return cat(who, ": region ", o.region, ", URL names ", w.region); });
        if (o.kind != "abort") check(o.bucket == w.bucket && o.key == w.key, "place", [&] { return cat(who, ": request for ", o.bucket, "/", o.key); });
      }
      distinct(who);
    });
  }
}

// one client per region, from any number of threads
static void clients() {
  auto r = rng("clients");
  for (size_t k = 0; k < n(15, 200); k++)
    runCase(cat("clients ", k), [&] {
      std::vector<std::string> regions;
      for (size_t i = 0, m = 1 + r.below(4); i < m; i++) regions.push_back(cat("region-", k, "-", i));
      std::vector<std::thread> ts;
      std::mutex m;
      std::map<std::string, std::vector<std::shared_ptr<cio::S3Client>>> got;
      for (int t = 0; t < 6; t++)
        ts.emplace_back([&, t] {
          for (int i = 0; i < 8; i++) {
            auto& g = regions[(t + i) % regions.size()];
            auto c = cio::S3Client::getInstance({.region = g});
            std::lock_guard<std::mutex> l(m);
            got[g].push_back(c);
          }
        });
      for (auto& t : ts) t.join();
      for (auto& [g, v] : got)
        for (auto& c : v) {
          check(c == v[0], "second-client", [&] { return "two clients for " + g; });
          check(c->getS3Client()->config.region == g, "region", [&] { return "client of " + c->getS3Client()->config.region + " for " + g; });
          count("clients_compared");
        }
      distinct(cat(k));
    });
}

void vfMain() {
  uploads();
  downloads();
  managers();
  clients();
}
