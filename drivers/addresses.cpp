// C37: storage addresses are understood the same way everywhere.
#include <cstdlib>
#include <unistd.h>
#include <google/cloud/storage/client.h>
#include "fbpcf/aws/S3Util.h"
#include "fbpcf/gcp/GCSUtil.h"
#include "fbpcf/io/FileManagerUtil.h"
#include "fbpcf/io/GCSFileManager.h"
#include "fbpcf/io/LocalFileManager.h"
#include "fbpcf/io/S3FileManager.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/CloudFileReader.h"
#include "fbpcf/io/api/FileIOWrappers.h"
#include "fbpcf/io/api/FileReader.h"
#include "fbpcf/io/api/FileWriter.h"
#include "fbpcf/io/api/IOUtils.h"
#include "fbpcf/io/cloud_util/S3Client.h"
#include "io.h"
#include "vfcloud.h"
using namespace io;
namespace fio = fbpcf::io;
namespace cio = fbpcf::cloudio;
using vfcloud::Op;
using vfcloud::store;

static const char* kRegions[] = {"us-west-2", "eu-north-1", "ap-southeast-3", "us-gov-east-1", "us-east-1"};
static const char* kDefaultRegion = "ca-central-1";
struct Address { std::string url, bucket, key, region; int form; bool s3; };

// bucket names: dots, dashes, digits, words that occur in hosts; underscores where the store allows them
static std::string bucket(Rng& r, bool underscores) {
  static const char* words[] = {"bucket", "my-bucket-7", "s3", "a.b", "a.b.c.d", "data.s3", "x.s3.y", "s3-us-west-2", "storage", "googleapis", "amazonaws", "com", "b1", "00", "my.bucket-name.example.com", "x.storage", "gs", "www.example.org", "amazonaws.com", "storage.cloud.google.com"};
  std::string b = words[r.below(sizeof words / sizeof *words)];
  if (r.coin()) b = cat(b, r.coin() ? "-" : r.coin() ? "." : "", words[r.below(sizeof words / sizeof *words)]);
  if (r.oneIn(8)) { b = ""; for (size_t n = 3 + r.below(60); n; n--) b += "abcdefghijklmnopqrstuvwxyz0123456789"[r.below(36)]; }
  if (underscores && r.oneIn(3)) b.insert(r.below(b.size() + 1), "_");
  return b;
}
static std::string key(Rng& r) {
  static const char* parts[] = {"file.csv", "key-name", "a", "dir", "..", ".", "a b", "%20", "%2F", "x=1", "a+b", "a&b", "a:b", "a@b", "(1)", "\xc3\xa9", "\xe6\x97\xa5", "~", "$", "!", "'", "*", ",", ";", "[x]", "\\", "\"", "|", "s3.us-west-2.amazonaws.com", "storage.googleapis.com", "s3:", "gs:", "https:", "x.storage.googleapis.com"};
  std::string k;
  for (size_t n = 1 + r.below(r.oneIn(4) ? 8 : 3); n; n--) {
    k += parts[r.below(sizeof parts / sizeof *parts)];
    if (r.oneIn(3)) k += parts[r.below(sizeof parts / sizeof *parts)];
    if (n > 1) k += r.oneIn(6) ? "//" : "/";
  }
  if (r.oneIn(8)) k += "/";
  if (r.oneIn(10)) k = "/" + k;
  if (r.oneIn(12)) { k.clear(); for (size_t n = 1 + r.below(1000); n; n--) k += (char)('a' + r.below(26)); }
  if (r.oneIn(12)) k = r.coin() ? "k" : "/";
  return k;
}
static Address address(Rng& r, int form = -1) {
  Address a;
  a.form = form < 0 ? (int)r.below(7) : form;
  a.s3 = a.form < 3;
  a.bucket = bucket(r, a.form >= 3);
  a.key = key(r);
  switch (a.form) {
    case 0: case 1: a.region = kRegions[r.below(5)]; a.url = cat("https://", a.bucket, a.form ? ".s3-" : ".s3.", a.region, ".amazonaws.com/", a.key); break;
    case 2: a.region = kDefaultRegion; a.url = cat("s3://", a.bucket, "/", a.key); break;
    case 3: a.url = cat("https://storage.cloud.google.com/", a.bucket, "/", a.key); break;
    case 4: a.url = cat("https://", a.bucket, ".storage.googleapis.com/", a.key); break;
    case 5: a.url = cat("https://storage.googleapis.com/", a.bucket, "/", a.key); break;
    default: a.url = cat("gs://", a.bucket, "/", a.key);
  }
  return a;
}
template <class F> static std::string thrown(F f) {
  try { f(); } catch (const std::exception& e) { return *e.what() ? e.what() : "?"; }
  return "";
}
static void region(bool on) { if (on) setenv("AWS_DEFAULT_REGION", kDefaultRegion, 1); else unsetenv("AWS_DEFAULT_REGION"); }

// every request since `from` must be about this object
static void onlyThis(const Address& a, size_t from, const std::string& who) {
  std::lock_guard<std::mutex> g(store().m);
  auto& l = store().log;
  if (l.size() == from) violation("no-request", cat(who, " of ", a.url));
  for (size_t i = from; i < l.size(); i++) {
    if (l[i].bucket != a.bucket || l[i].key != a.key || (a.s3 && l[i].region != a.region) || (!a.s3 && !l[i].region.empty()))
      violation("wrong-object", cat(who, " of ", a.url, ": ", l[i].kind, " of ", l[i].bucket, " ", l[i].key, " in ", l[i].region));
    count("requests_checked");
  }
}
static size_t logged() { std::lock_guard<std::mutex> g(store().m); return store().log.size(); }

static void documented(size_t id) {
  std::string nm = cat("address #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    Address a = address(r, (int)(id % 7));
    distinct(a.url);
    // the parsers
    if (a.s3) {
      auto ref = fbpcf::aws::uriToObjectReference(a.url);
      if (ref.region != a.region || ref.bucket != a.bucket || ref.key != a.key) violation("wrong-parts", cat(a.url, ": ", ref.region, " ", ref.bucket, " ", ref.key));
    } else {
      auto ref = fbpcf::gcp::uriToObjectReference(a.url);
      if (ref.bucket != a.bucket || ref.key != a.key) violation("wrong-parts", cat(a.url, ": ", ref.bucket, " ", ref.key));
    }
    // the kind
    if (cio::getCloudFileType(a.url) != (a.s3 ? cio::CloudFileType::S3 : cio::CloudFileType::GCS)) violation("wrong-kind", a.url);
    if (cio::getCloudProviderString(a.url) != (a.s3 ? "AWS" : "GCP") || cio::getCloudStorageServiceString(a.url) != (a.s3 ? "S3" : "GCS")) violation("wrong-kind-name", a.url);
    if (!fio::IOUtils::isCloudFile(a.url)) violation("taken-for-local", cat("readers and writers: ", a.url));
    if (fio::getFileType(a.url) == fio::FileType::Local) violation("taken-for-local", cat("file managers: ", a.url));
    if (fio::IOUtils::getDefaultReaderChunkSizeForFile(a.url) != fio::kCloudBufferedReaderChunkSize || fio::IOUtils::getDefaultWriterChunkSizeForFile(a.url) != fio::kCloudBufferedWriterChunkSize) violation("wrong-chunk-size", a.url);
    auto fm = fio::getFileManager(a.url);
    if (a.s3 ? !dynamic_cast<fbpcf::S3FileManager*>(fm.get()) : !dynamic_cast<fbpcf::GCSFileManager<google::cloud::storage::Client>*>(fm.get())) violation("wrong-file-manager", a.url);
    count("addresses_parsed");
    // the object itself, among decoys
    store().reset();
    std::string s = content(r, 300);
    if (s.empty()) s = "x";
    auto decoys = [&] {
      for (auto& b : {a.bucket.substr(0, a.bucket.find('.')), a.bucket + "x", a.bucket.substr(a.bucket.rfind('.') + 1)})
        for (auto& k : {a.key.substr(0, a.key.size() / 2), a.key + "/x", "/" + a.key, a.bucket + "/" + a.key, a.key.substr(a.key.rfind('/') + 1), a.key})
          if (b != a.bucket || k != a.key) store().objects[{b, k}] = "decoy";
    };
    decoys();
    store().objects[{a.bucket, a.key}] = s;
    auto before = store().objects;
    size_t at = logged();
    auto same = [&](const std::string& got, const char* who) {
      if (got != s) violation("wrong-content", cat(who, " of ", a.url, ": ", show(got)));
      onlyThis(a, at, who);
      at = logged();
      count("objects_read");
    };
    same(fio::read(a.url), "file manager read");
    same(fm->read(a.url), "file manager read");
    same(fm->readBytes(a.url, 0, s.size()), "file manager range");
    { auto in = fio::getInputStream(a.url); std::stringstream ss; ss << in->get().rdbuf(); same(ss.str(), "input stream"); }
    { auto rd = cio::getCloudFileReader(a.url); if (rd->getFileContentLength(a.url) != s.size()) violation("wrong-length", a.url); same(rd->readBytes(a.url, 0, s.size()), "cloud reader"); }
    { fio::FileReader rd(a.url); std::vector<char> v(s.size()); size_t k = rd.read(v); same(std::string(v.data(), std::min(k, v.size())), "file reader"); }
    { std::string got; fio::BufferedReader rd(std::make_unique<fio::FileReader>(a.url), 1000); while (!rd.eof()) { got += rd.readLine(); got += '\n'; } if (s.back() != '\n') got.pop_back(); same(got, "buffered reader"); }
    if (store().objects != before) violation("reading-changes-objects", a.url);
    // writing
    for (int way = 0; way < 4; way++) {
      store().objects.clear();
      decoys();
      auto want = store().objects;
      want[{a.bucket, a.key}] = s;
      at = logged();
      const char* who[] = {"file manager write", "file writer", "whole file", "cloud uploader"};
      std::vector<char> v(s.begin(), s.end());
      switch (way) {
        case 0: fio::write(a.url, s); break;
        case 1: { fio::FileWriter w(a.url); w.write(v); w.close(); break; }
        case 2: fio::FileIOWrappers::writeFile(a.url, s); break;
        default: { auto u = cio::getCloudFileUploader(a.url); u->upload(v); u->complete(); }
      }
      if (store().objects != want) violation("wrong-objects-written", cat(who[way], " to ", a.url));
      onlyThis(a, at, who[way]);
      count("objects_written");
    }
  });
}

// addresses that resemble a documented form but are none of them
struct Miss { std::string url, why; };
static std::vector<Miss> misses(Rng& r) {
  std::vector<Miss> v;
  auto add = [&](const std::string& why, const std::string& url) { v.push_back({url, why}); };
  for (int f = 0; f < 7; f++) {
    Address a = address(r, f);
    std::string scheme = a.url.substr(0, a.url.find("://") + 3), rest = a.url.substr(scheme.size());
    std::string host = rest.substr(0, rest.find('/'));
    // no key, no bucket
    if (f == 3 || f == 5) {
      add("no key", cat(scheme, host, "/", a.bucket)); add("no key", cat(scheme, host, "/", a.bucket, "/"));
      add("no bucket", cat(scheme, host, "//", a.key)); add("no bucket", cat(scheme, host)); add("no bucket", cat(scheme, host, "/"));
    } else {
      add("no key", scheme + host); add("no key", scheme + host + "/");
    }
    if (f == 2 || f == 6) { add("no bucket", cat(scheme, "/", a.key)); continue; }
    if (f == 0) add("no bucket", cat("https://s3.", a.region, ".amazonaws.com/", a.key)), add("no bucket", cat("https://.s3.", a.region, ".amazonaws.com/", a.key));
    if (f == 1) add("no bucket", cat("https://s3-", a.region, ".amazonaws.com/", a.key)), add("no bucket", cat("https://.s3-", a.region, ".amazonaws.com/", a.key));
    if (f == 4) add("no bucket", cat("https://.storage.googleapis.com/", a.key));
    // the fixed part of the host, changed in one place
    std::string fixed = f == 0 ? cat(".s3.", a.region, ".amazonaws.com") : f == 1 ? cat(".s3-", a.region, ".amazonaws.com") : f == 4 ? ".storage.googleapis.com" : host;
    std::string head = host.substr(0, host.size() - fixed.size());
    std::string tail = "/" + (f == 3 || f == 5 ? a.bucket + "/" : std::string()) + a.key;
    for (size_t i = f == 4 ? 1 : 0; i < fixed.size(); i++) {
      bool inRegion = f < 2 && i >= 4 && i < 4 + a.region.size();
      if (inRegion || (f < 2 && i == 3)) continue;
      if (fixed[i] != '.' && !r.oneIn(8)) continue;
      for (char c : {'x', '/', '-', '_'}) {
        if (c == fixed[i]) continue;
        auto h = fixed; h[i] = c;
        if (c == '-' && f < 2 && i == 0) continue; // bucket-s3.region: no bucket of its own, covered above
        add(cat("dot ", i, " is ", std::string(1, c)), cat("https://", head, h, tail));
      }
    }
    add("longer host", cat("https://", host, ".example.com", tail));
    add("longer host", cat("https://", host, "x", tail));
    add("longer host", cat("https://", host, ".cn", tail));
    if (f == 3 || f == 5) add("longer host", cat("https://x", host, tail));
    add("host in the path", cat("https://example.com/", host, tail));
    add("host in the path", cat("https://example.com/x.", host, tail));
    if (f < 2) {
      add("no region", cat("https://", a.bucket, ".s3.amazonaws.com", tail));
      add("no service", cat("https://", a.bucket, ".", a.region, ".amazonaws.com", tail));
      add("two regions", cat("https://", a.bucket, ".s3.", a.region, ".", a.region, ".amazonaws.com", tail));
      add("other service", cat("https://", a.bucket, ".ec2.", a.region, ".amazonaws.com", tail));
    }
  }
  add("other host", "https://storage.test.com/bucket-name/key-name");
  add("other host", "https://example.com/a/b");
  add("nothing", "https://"); add("nothing", "s3://"); add("nothing", "gs://"); add("nothing", "https:///"); add("nothing", "s3:///"); add("nothing", "gs:///");
  return v;
}
// changes that happen to give another documented address are left out
static bool isDocumented(const std::string& u) {
  auto under = [&](const std::string& s) { return u.rfind(s, 0) == 0; };
  if (!under("https://")) return false;
  auto rest = u.substr(8), host = rest.substr(0, rest.find('/'));
  auto path = rest.size() > host.size() ? rest.substr(host.size() + 1) : "";
  auto ends = [&](const std::string& s) { return host.size() > s.size() && host.compare(host.size() - s.size(), s.size(), s) == 0; };
  if (host == "storage.cloud.google.com" || host == "storage.googleapis.com") { auto p = path.find('/'); return p != std::string::npos && p && p + 1 < path.size(); }
  if (path.empty()) return false;
  if (ends(".storage.googleapis.com")) return true;
  if (!ends(".amazonaws.com")) return false;
  auto h = host.substr(0, host.size() - 14);
  auto dot = h.rfind('.');
  if (dot == std::string::npos) return false;
  auto last = h.substr(dot + 1);
  if (last.rfind("s3-", 0) == 0 && last.size() > 3 && dot) return true;         // bucket.s3-region
  return dot > 3 && h.substr(dot - 3, 3) == ".s3" && dot - 3 > 0 && !last.empty(); // bucket.s3.region
}
static void nearMisses(size_t id) {
  std::string nm = cat("near misses #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    auto dir = scratchDir() + cat("/miss", id);
    std::filesystem::create_directory(dir);
    if (chdir(dir.c_str())) throw std::runtime_error("chdir");
    for (auto& m : misses(r)) {
      if (isDocumented(m.url)) continue;
      progress();
      distinct(m.url);
      store().reset();
      struct { const char* who; std::function<void()> f; } ways[] = {
          {"file reader", [&] { fio::FileReader x(m.url); std::vector<char> v(4); x.read(v); }},
          {"cloud reader", [&] { cio::getCloudFileReader(m.url)->readBytes(m.url, 0, 4); }},
          {"file writer", [&] { fio::FileWriter x(m.url); std::vector<char> v(4); x.write(v); x.close(); }},
          {"cloud uploader", [&] { auto x = cio::getCloudFileUploader(m.url); std::vector<char> v(4); x->upload(v); x->complete(); }},
          {"file manager", [&] { fio::read(m.url); }},
          {"file manager write", [&] { fio::write(m.url, "data"); }}};
      for (auto& w : ways) {
        if (thrown(w.f).empty()) violation("accepted", cat(w.who, " of ", m.url, " (", m.why, ")"));
        count("refusals");
      }
      if (logged()) { auto& o = store().log[0]; violation("request-for-a-refused-address", cat(m.url, " (", m.why, "): ", o.kind, " of ", o.bucket, " ", o.key)); }
      bool s3 = thrown([&] { fbpcf::aws::uriToObjectReference(m.url); }).empty(), gcs = m.url.rfind("gs://", 0) && thrown([&] { fbpcf::gcp::uriToObjectReference(m.url); }).empty();
      if (s3 || gcs) violation("parsed", cat(m.url, " (", m.why, ") by ", s3 ? "S3" : "GCS"));
      auto t = cio::getCloudFileType(m.url);
      bool keyless = m.why[0] == 'n' && m.why[1] == 'o'; // the kind may be told by the host or scheme alone
      if (t != cio::CloudFileType::UNKNOWN && !keyless) violation("kind-of-a-miss", cat(m.url, " (", m.why, ")"));
      if (t == cio::CloudFileType::UNKNOWN && (cio::getCloudProviderString(m.url) != "" || cio::getCloudStorageServiceString(m.url) != "")) violation("wrong-kind-name", m.url);
    }
    if (!std::filesystem::is_empty(dir)) violation("local-file-for-a-cloud-address", cat(std::filesystem::directory_iterator(dir)->path().string()));
    if (chdir("/")) throw std::runtime_error("chdir");
  });
}

// the shared address of one kind is not one of the other
static void crossed(size_t id) {
  std::string nm = cat("crossed #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    Address a = address(r);
    if (a.form == 2 || a.form == 6) return;
    bool parsed = a.s3 ? thrown([&] { fbpcf::gcp::uriToObjectReference(a.url); }).empty() : thrown([&] { fbpcf::aws::uriToObjectReference(a.url); }).empty();
    if (parsed) violation("parsed-by-the-other", a.url);
    count("crossed");
  });
}

// everything else is a local path
static void local(size_t id) {
  std::string nm = cat("local #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    auto dir = scratchDir() + cat("/local", id);
    std::filesystem::create_directory(dir);
    if (chdir(dir.c_str())) throw std::runtime_error("chdir");
    static const char* heads[] = {"", "./", "d/", "https:/", "https:", "https", "s3:/", "s3:", "s3", "gs:/", "gs:", "gs", "x/https://", "./https://", "./s3://", "./gs://", " https://", "xs3://", "http:/", "d/s3://", "storage.googleapis.com/", "bucket.s3.us-west-2.amazonaws.com/"};
    for (auto h : heads) {
      std::string p = h;
      if (r.coin()) p += "sub/";
      p += r.coin() ? "key.txt" : "https:file";
      if (p.rfind("https://", 0) == 0 || p.rfind("s3://", 0) == 0 || p.rfind("gs://", 0) == 0) continue;
      if (r.oneIn(4)) p = dir + "/" + p;
      distinct(cat(id, p));
      store().reset();
      if (fio::IOUtils::isCloudFile(p) || fio::getFileType(p) != fio::FileType::Local) violation("taken-for-cloud", p);
      if (cio::getCloudFileType(p) != cio::CloudFileType::UNKNOWN || cio::getCloudProviderString(p) != "") violation("taken-for-cloud", p);
      if (fio::IOUtils::getDefaultReaderChunkSizeForFile(p) != fio::kLocalBufferedReaderChunkSize || fio::IOUtils::getDefaultWriterChunkSizeForFile(p) != fio::kLocalBufferedWriterChunkSize) violation("wrong-chunk-size", p);
      std::string s = content(r, 200);
      fio::write(p, s);
      if (!std::filesystem::exists(p) || slurp(p) != s || fio::read(p) != s) violation("local-file-wrong", cat("file manager ", p));
      std::string t = content(r, 200) + "end";
      { fio::FileWriter w(p); std::vector<char> v(t.begin(), t.end()); w.write(v); w.close(); }
      std::vector<char> v(t.size());
      fio::FileReader rd(p);
      size_t k = rd.read(v);
      if (slurp(p) != t || k != t.size() || std::string(v.begin(), v.end()) != t) violation("local-file-wrong", cat("file writer ", p));
      if (logged()) violation("request-for-a-local-path", p);
      if (!dynamic_cast<fbpcf::LocalFileManager*>(fio::getFileManager(p).get())) violation("wrong-file-manager", p);
      count("local_paths");
    }
    if (chdir("/")) throw std::runtime_error("chdir");
    std::filesystem::remove_all(dir);
  });
}

// without a region in the environment an s3:// address is refused, the others are not
static void noRegion(size_t id) {
  std::string nm = cat("no region #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    region(false);
    Address a = address(r, (int)(id % 7));
    store().reset();
    store().objects[{a.bucket, a.key}] = "x";
    auto e = thrown([&] { fio::read(a.url); }), f = thrown([&] { fio::FileReader rd(a.url); std::vector<char> v(1); rd.read(v); });
    if (a.form == 2 && (e.empty() || f.empty())) violation("accepted", cat(a.url, " without a region"));
    if (a.form != 2 && !(e + f).empty()) violation("refused", cat(a.url, ": ", e, f));
    region(true);
    count("regions_checked");
  });
}

// clients: options given go before the environment
static void clients(size_t id) {
  std::string nm = cat("client #", id);
  runCase(nm, [&] {
    Rng r = rng(nm);
    fbpcf::aws::S3ClientOption o;
    Aws::Client::ClientConfiguration want;
    auto word = [&] { return cat("v", r.below(1000000)); };
    auto pick = [&](const char* env, auto& opt, auto& field, auto value, auto other) {
      unsetenv(env);
      int k = (int)r.below(4); // neither, environment, option, both
      if (k & 1) setenv(env, cat(other).c_str(), 1);
      if (k & 2) opt = value;
      return k;
    };
    auto text = [&](const char* env, std::optional<std::string>& opt, std::string& field) {
      auto a = word(), b = word();
      int k = pick(env, opt, field, a, b);
      field = k & 2 ? a : k & 1 ? b : "";
    };
    text("AWS_DEFAULT_REGION", o.region, want.region);
    text("AWS_PROXY_HOST", o.proxyHost, want.proxyHost);
    text("AWS_PROXY_CERT_PATH", o.proxySSLCertPath, want.proxySSLCertPath);
    unsigned p = (unsigned)r.below(65536), q = (unsigned)r.below(65536);
    int k = pick("AWS_PROXY_PORT", o.proxyPort, want.proxyPort, p, q);
    want.proxyPort = k & 2 ? p : k & 1 ? q : 0;
    std::string sa = r.coin() ? "HTTPS" : "HTTP", sb = r.coin() ? "HTTPS" : "HTTP";
    k = pick("AWS_PROXY_SCHEME", o.proxyScheme, want.proxyScheme, sa, sb);
    auto def = want.proxyScheme;
    want.proxyScheme = !k ? def : (k & 2 ? sa : sb) == "HTTPS" ? Aws::Http::Scheme::HTTPS : Aws::Http::Scheme::HTTP;
    bool id1 = r.coin(), id2 = r.coin();
    if (id1) o.accessKeyId = "id";
    if (id2) o.secretKey = "secret";
    auto c = fbpcf::aws::createS3Client(o);
    auto& g = c->config;
    if (g.region != want.region || g.proxyHost != want.proxyHost || g.proxySSLCertPath != want.proxySSLCertPath || g.proxyPort != want.proxyPort || g.proxyScheme != want.proxyScheme)
      violation("wrong-client", cat("region ", g.region, " for ", want.region, " host ", g.proxyHost, "/", want.proxyHost, " port ", g.proxyPort, "/", want.proxyPort));
    if ((c->credentials.id != (id1 && id2 ? "id" : "")) || (c->credentials.key != (id1 && id2 ? "secret" : ""))) violation("wrong-credentials", nm);
    for (auto e : {"AWS_PROXY_HOST", "AWS_PROXY_CERT_PATH", "AWS_PROXY_PORT", "AWS_PROXY_SCHEME"}) unsetenv(e);
    region(true);
    count("clients_checked");
    distinct(nm);
  });
}

void vfMain() {
  region(true);
  for (size_t i = 0; i < n(1400, 30000); i++) documented(i);
  for (size_t i = 0; i < n(12, 300); i++) nearMisses(i);
  for (size_t i = 0; i < n(1000, 10000); i++) crossed(i);
  for (size_t i = 0; i < n(10, 200); i++) local(i);
  for (size_t i = 0; i < n(70, 700); i++) noRegion(i);
  for (size_t i = 0; i < n(300, 5000); i++) clients(i);
}
