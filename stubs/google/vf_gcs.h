// Stand-in for the parts of google-cloud-cpp storage that fbpcf uses.
#pragma once
#include <fstream>
#include <istream>
#include <optional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include "vfcloud.h"

namespace google::cloud {
enum class StatusCode { kOk, kUnavailable, kNotFound, kInvalidArgument, kOutOfRange, kFailedPrecondition };
class Status {
 public:
  Status() = default;
  Status(StatusCode c, std::string m) : c_(c), m_(std::move(m)) {}
  bool ok() const { return c_ == StatusCode::kOk; }
  StatusCode code() const { return c_; }
  const std::string& message() const { return m_; }

 private:
  StatusCode c_ = StatusCode::kOk;
  std::string m_;
};
template <class T> class StatusOr {
 public:
  StatusOr() : s_(StatusCode::kFailedPrecondition, "no value") {}
  StatusOr(T t) : v_(std::move(t)) {}
  StatusOr(Status s) : s_(std::move(s)) {}
  explicit operator bool() const { return s_.ok(); }
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T* operator->() { return &*v_; }
  const T* operator->() const { return &*v_; }
  T& operator*() { return *v_; }
  const T& operator*() const { return *v_; }
  T& value() { if (!v_) throw std::runtime_error(s_.message()); return *v_; }

 private:
  std::optional<T> v_;
  Status s_;
};
namespace storage {
struct ReadRange { bool has = false; int64_t begin = 0, end = 0; ReadRange() = default; ReadRange(int64_t b, int64_t e) : has(true), begin(b), end(e) {} };
struct ContentType { std::string t; explicit ContentType(std::string s) : t(std::move(s)) {} };
struct ObjectMetadata { uint64_t n = 0; std::string b, k; uint64_t size() const { return n; } const std::string& name() const { return k; } const std::string& bucket() const { return b; } };

namespace vf {
// errors of a download surface as exceptions out of the buffer, as in the library
class ReadBuf : public std::basic_streambuf<char> {
 public:
  ReadBuf(std::string d, Status initial, bool breaks) : d_(std::move(d)), status_(std::move(initial)), breaks_(breaks) {
    good_ = breaks_ ? d_.size() / 2 : d_.size();
    if (!status_.ok()) good_ = 0;
  }
  Status status_;

 protected:
  int_type underflow() override {
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    if (at_ >= good_) {
      if (!status_.ok()) throw std::runtime_error(status_.message());
      if (breaks_) { status_ = Status(StatusCode::kUnavailable, "download interrupted"); throw std::runtime_error(status_.message()); }
      return traits_type::eof();
    }
    size_t n = std::min<size_t>(good_ - at_, 3001);
    setg(&d_[at_], &d_[at_], &d_[at_] + n);
    at_ += n;
    return traits_type::to_int_type(*gptr());
  }

 private:
  std::string d_;
  size_t good_, at_ = 0;
  bool breaks_;
};
// gathers, sends chunks, is in error for good after the first failure
class WriteBuf : public std::basic_streambuf<char> {
 public:
  std::string bucket, key, id, buf;
  Status status;
  StatusOr<ObjectMetadata> meta;
  bool open = true;
  WriteBuf(std::string b, std::string k) : bucket(b), key(k) {
    vfcloud::Op op; op.kind = "create"; op.bucket = b; op.key = k;
    auto r = vfcloud::store().request(op, [&]() -> std::string {
      auto& s = vfcloud::store();
      id = "session-" + std::to_string(s.next++);
      s.uploads[id] = {b, k, {}, ""};
      return "";
    });
    if (!r.ok) { status = Status(StatusCode::kUnavailable, r.error); open = false; id.clear(); meta = status; }
  }
  bool send(bool last) {
    if (!open) return false;
    if (!last && buf.size() < vfcloud::store().gcsBuffer) return true;
    vfcloud::Op op; op.kind = last ? "complete" : "part"; op.bucket = bucket; op.key = key; op.upload = id; op.size = buf.size();
    auto r = vfcloud::store().request(op, [&]() -> std::string {
      auto& s = vfcloud::store();
      auto it = s.uploads.find(id);
      if (it == s.uploads.end()) return "no such session";
      it->second.data += buf;
      if (last) { meta = ObjectMetadata{it->second.data.size(), bucket, key}; s.objects[{bucket, key}] = it->second.data; s.uploads.erase(it); }
      return "";
    });
    buf.clear();
    if (!r.ok) { status = Status(StatusCode::kUnavailable, r.error); meta = status; open = false; return false; }
    if (last) open = false;
    return true;
  }

 protected:
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    if (!open) return 0;
    buf.append(p, n);
    return send(false) ? n : 0;
  }
  int_type overflow(int_type c) override {
    if (!open || traits_type::eq_int_type(c, traits_type::eof())) return traits_type::eof();
    buf.push_back(traits_type::to_char_type(c));
    return send(false) ? c : traits_type::eof();
  }
};
} // namespace vf

class ObjectReadStream : public std::basic_istream<char> {
 public:
  explicit ObjectReadStream(std::unique_ptr<vf::ReadBuf> b) : std::basic_istream<char>(nullptr), b_(std::move(b)) { init(b_.get()); if (!b_->status_.ok()) setstate(std::ios::badbit | std::ios::eofbit); }
  ObjectReadStream() : ObjectReadStream(std::make_unique<vf::ReadBuf>("", Status(StatusCode::kFailedPrecondition, "default"), false)) {}
  ObjectReadStream(ObjectReadStream&& o) noexcept : std::basic_istream<char>(std::move(o)), b_(std::move(o.b_)) { set_rdbuf(b_.get()); }
  const Status& status() const& { return b_->status_; }

 private:
  std::unique_ptr<vf::ReadBuf> b_;
};
class ObjectWriteStream : public std::basic_ostream<char> {
 public:
  ObjectWriteStream() : std::basic_ostream<char>(nullptr) { setstate(std::ios::badbit); }
  explicit ObjectWriteStream(std::unique_ptr<vf::WriteBuf> b) : std::basic_ostream<char>(nullptr), b_(std::move(b)) { init(b_.get()); if (!b_->status.ok()) setstate(std::ios::badbit); }
  ObjectWriteStream(ObjectWriteStream&& o) noexcept : std::basic_ostream<char>(nullptr), b_(std::move(o.b_)) { auto st = o.rdstate(); init(b_.get()); clear(st); }
  ObjectWriteStream& operator=(ObjectWriteStream&& o) noexcept { finish(); b_ = std::move(o.b_); rdbuf(b_.get()); clear(o.rdstate()); if (b_ && !b_->status.ok()) setstate(std::ios::badbit); return *this; }
  ~ObjectWriteStream() override { finish(); }
  void Close() { if (b_) { if (b_->open && !b_->send(true)) setstate(std::ios::badbit); } }
  const StatusOr<ObjectMetadata>& metadata() const& { static const StatusOr<ObjectMetadata> none; return b_ ? b_->meta : none; }
  StatusOr<ObjectMetadata>&& metadata() && { return std::move(b_->meta); }
  const Status& last_status() const& { static const Status ok; return b_ ? b_->status : ok; }
  const std::string& resumable_session_id() const { static const std::string e; return b_ ? b_->id : e; }
  bool IsOpen() const { return b_ && b_->open; }

 private:
  void finish() { if (b_ && b_->open) b_->send(true); }
  std::unique_ptr<vf::WriteBuf> b_;
};

class Client {
 public:
  virtual ~Client() = default;
  ObjectReadStream ReadObject(const std::string& b, const std::string& k, ReadRange r = {}) {
    vfcloud::Op op; op.kind = "get"; op.bucket = b; op.key = k;
    std::string d;
    vfcloud::Fault f = vfcloud::Fault::None;
    Status st;
    auto res = vfcloud::store().request(op, [&]() -> std::string {
      auto& s = vfcloud::store();
      auto it = s.objects.find({b, k});
      if (it == s.objects.end()) return "NotFound";
      if (!r.has) d = it->second;
      else {
        if (r.begin < 0 || r.begin >= r.end) return "InvalidArgument";
        if ((uint64_t)r.begin >= it->second.size()) return "OutOfRange";
        d = it->second.substr(r.begin, r.end - r.begin);
      }
      return "";
    }, &f);
    if (!res.ok) st = Status(StatusCode::kUnavailable, res.error);
    return ObjectReadStream(std::make_unique<vf::ReadBuf>(d, st, f == vfcloud::Fault::Partial));
  }
  StatusOr<ObjectMetadata> GetObjectMetadata(const std::string& b, const std::string& k) {
    vfcloud::Op op; op.kind = "head"; op.bucket = b; op.key = k;
    ObjectMetadata m;
    auto r = vfcloud::store().request(op, [&]() -> std::string {
      auto& s = vfcloud::store();
      auto it = s.objects.find({b, k});
      if (it == s.objects.end()) return "NotFound";
      m = {it->second.size(), b, k};
      return "";
    });
    if (!r.ok) return Status(StatusCode::kUnavailable, r.error);
    return m;
  }
  template <class... O> ObjectWriteStream WriteObject(const std::string& b, const std::string& k, O&&...) { return ObjectWriteStream(std::make_unique<vf::WriteBuf>(b, k)); }
  Status DeleteResumableUpload(const std::string& id) {
    vfcloud::Op op; op.kind = "abort"; op.upload = id;
    auto r = vfcloud::store().request(op, [&]() -> std::string { return vfcloud::store().uploads.erase(id) ? "" : "no such session"; });
    return r.ok ? Status() : Status(StatusCode::kNotFound, r.error);
  }
  template <class... O> StatusOr<ObjectMetadata> UploadFile(const std::string& src, const std::string& b, const std::string& k, O&&...) {
    std::ifstream f(src, std::ios::binary);
    if (!f.is_open()) return Status(StatusCode::kNotFound, "cannot open " + src);
    std::stringstream ss;
    ss << f.rdbuf();
    vfcloud::Op op; op.kind = "put"; op.bucket = b; op.key = k; op.size = ss.str().size();
    auto r = vfcloud::store().request(op, [&]() -> std::string { vfcloud::store().objects[{b, k}] = ss.str(); return ""; });
    if (!r.ok) return Status(StatusCode::kUnavailable, r.error);
    return ObjectMetadata{op.size, b, k};
  }
};
} // namespace storage
} // namespace google::cloud
