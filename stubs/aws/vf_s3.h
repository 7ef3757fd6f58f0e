// Stand-in for the parts of the AWS SDK that fbpcf uses.
#pragma once
#include <algorithm>
#include <iostream>
#include <optional>
#include <sstream>
#include "vfcloud.h"

namespace Aws {
using String = std::string;
using StringStream = std::stringstream;
using IOStream = std::iostream;
template <class T> using Vector = std::vector<T>;
template <class T, class... A> std::shared_ptr<T> MakeShared(const char*, A&&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
struct SDKOptions {};
inline int apiInits = 0;
inline void InitAPI(const SDKOptions&) { apiInits++; }
inline void ShutdownAPI(const SDKOptions&) { apiInits--; }
namespace Http { enum class Scheme { HTTP, HTTPS }; }
namespace Auth { struct AWSCredentials { String id, key; AWSCredentials() = default; AWSCredentials(const String& a, const String& b) : id(a), key(b) {} }; }
namespace Client {
struct ClientConfiguration { String region, proxyHost, proxySSLCertPath; unsigned proxyPort = 0; Http::Scheme proxyScheme = Http::Scheme::HTTP; };
template <class E> struct AWSError { String message; const String& GetMessage() const { return message; } };
template <class E> std::ostream& operator<<(std::ostream& o, const AWSError<E>& e) { return o << e.message; }
}
namespace S3 {
struct S3Errors {};
using Error = Client::AWSError<S3Errors>;
template <class R> struct Outcome {
  bool ok = false;
  R result;
  Error error;
  Outcome() = default;
  Outcome(R r) : ok(true), result(std::move(r)) {}
  Outcome(Error e) : error(std::move(e)) {}
  bool IsSuccess() const { return ok; }
  const R& GetResult() const { return result; }
  R& GetResult() { return result; }
  R GetResultWithOwnership() { return std::move(result); }
  const Error& GetError() const { return error; }
};
namespace Model {
struct ObjectRequest {
  String bucket, key;
  void SetBucket(const String& b) { bucket = b; }
  void SetKey(const String& k) { key = k; }
  const String& GetBucket() const { return bucket; }
  const String& GetKey() const { return key; }
};
struct BodyRequest : ObjectRequest {
  std::shared_ptr<std::iostream> body;
  std::optional<long long> length;
  void SetBody(const std::shared_ptr<std::iostream>& b) { body = b; }
  std::shared_ptr<std::iostream> GetBody() const { return body; }
  void SetContentLength(long long n) { length = n; }
  void SetContentType(const String&) {}
  String all() const {
    if (!body) return "";
    body->clear();
    body->seekg(0);
    std::stringstream s;
    s << body->rdbuf();
    body->clear();
    return s.str();
  }
};
struct GetObjectRequest : ObjectRequest { String range; void SetRange(const String& r) { range = r; } const String& GetRange() const { return range; } };
struct HeadObjectRequest : ObjectRequest {};
struct PutObjectRequest : BodyRequest {};
struct CreateMultipartUploadRequest : BodyRequest {};
struct UploadPartRequest : BodyRequest {
  String uploadId; int part = 0;
  void SetUploadId(const String& u) { uploadId = u; }
  void SetPartNumber(int p) { part = p; }
  int GetPartNumber() const { return part; }
};
struct CompletedPart {
  int number = 0; String etag;
  void SetPartNumber(int n) { number = n; }
  void SetETag(const String& e) { etag = e; }
  int GetPartNumber() const { return number; }
  const String& GetETag() const { return etag; }
  CompletedPart& WithPartNumber(int n) { number = n; return *this; }
  CompletedPart& WithETag(const String& e) { etag = e; return *this; }
};
struct CompletedMultipartUpload {
  Vector<CompletedPart> parts;
  CompletedMultipartUpload& WithParts(const Vector<CompletedPart>& p) { parts = p; return *this; }
  CompletedMultipartUpload& AddParts(const CompletedPart& p) { parts.push_back(p); return *this; }
  void SetParts(const Vector<CompletedPart>& p) { parts = p; }
};
struct CompleteMultipartUploadRequest : ObjectRequest {
  String uploadId; CompletedMultipartUpload upload;
  void SetUploadId(const String& u) { uploadId = u; }
  void SetMultipartUpload(const CompletedMultipartUpload& u) { upload = u; }
};
struct AbortMultipartUploadRequest : ObjectRequest { String uploadId; void SetUploadId(const String& u) { uploadId = u; } };
struct GetObjectResult {
  std::unique_ptr<std::stringstream> body = std::make_unique<std::stringstream>();
  std::iostream& GetBody() { return *body; }
};
struct HeadObjectResult { long long length = 0; long long GetContentLength() const { return length; } };
struct PutObjectResult {};
struct CreateMultipartUploadResult { String id; const String& GetUploadId() const { return id; } };
struct UploadPartResult { String etag; const String& GetETag() const { return etag; } };
struct CompleteMultipartUploadResult {};
struct AbortMultipartUploadResult {};
using GetObjectOutcome = Outcome<GetObjectResult>;
using HeadObjectOutcome = Outcome<HeadObjectResult>;
using PutObjectOutcome = Outcome<PutObjectResult>;
using CreateMultipartUploadOutcome = Outcome<CreateMultipartUploadResult>;
using UploadPartOutcome = Outcome<UploadPartResult>;
using CompleteMultipartUploadOutcome = Outcome<CompleteMultipartUploadResult>;
using AbortMultipartUploadOutcome = Outcome<AbortMultipartUploadResult>;
} // namespace Model

class S3Client {
 public:
  Client::ClientConfiguration config;
  Auth::AWSCredentials credentials;
  S3Client() = default;
  explicit S3Client(const Client::ClientConfiguration& c) : config(c) {}
  S3Client(const Auth::AWSCredentials& a, const Client::ClientConfiguration& c) : config(c), credentials(a) {}
  virtual ~S3Client() = default;

  virtual Model::GetObjectOutcome GetObject(const Model::GetObjectRequest& q) const {
    Model::GetObjectResult res;
    return run("get", q, "", 0, 0, res, [&]() -> String {
      auto& s = vfcloud::store();
      auto it = s.objects.find({q.bucket, q.key});
      if (it == s.objects.end()) return "NoSuchKey";
      const String& o = it->second;
      size_t from = 0, to = o.size(); // half-open
      unsigned long long a, b;
      // a range whose end precedes its start is not a range: it is ignored
      if (sscanf(q.range.c_str(), "bytes=%llu-%llu", &a, &b) == 2 && a <= b) {
        if (a >= o.size()) return "InvalidRange";
        from = a;
        to = b >= o.size() ? o.size() : b + 1;
      }
      *res.body << o.substr(from, to - from);
      return "";
    });
  }
  virtual Model::HeadObjectOutcome HeadObject(const Model::HeadObjectRequest& q) const {
    Model::HeadObjectResult res;
    return run("head", q, "", 0, 0, res, [&]() -> String {
      auto& s = vfcloud::store();
      auto it = s.objects.find({q.bucket, q.key});
      if (it == s.objects.end()) return "NoSuchKey";
      res.length = (long long)it->second.size();
      return "";
    });
  }
  virtual Model::PutObjectOutcome PutObject(const Model::PutObjectRequest& q) const {
    auto data = q.all();
    Model::PutObjectResult res;
    return run("put", q, "", 0, data.size(), res, [&]() -> String {
      vfcloud::store().objects[{q.bucket, q.key}] = data;
      return "";
    });
  }
  virtual Model::CreateMultipartUploadOutcome CreateMultipartUpload(const Model::CreateMultipartUploadRequest& q) const {
    Model::CreateMultipartUploadResult res;
    return run("create", q, "", 0, 0, res, [&]() -> String {
      auto& s = vfcloud::store();
      res.id = "upload-" + std::to_string(s.next++);
      s.uploads[res.id] = {q.bucket, q.key, {}, ""};
      return "";
    });
  }
  virtual Model::UploadPartOutcome UploadPart(const Model::UploadPartRequest& q) const {
    auto data = q.all();
    Model::UploadPartResult res;
    return run("part", q, q.uploadId, q.part, data.size(), res, [&]() -> String {
      auto& s = vfcloud::store();
      auto it = s.uploads.find(q.uploadId);
      if (it == s.uploads.end() || it->second.bucket != q.bucket || it->second.key != q.key) return "NoSuchUpload";
      if (q.part < 1 || q.part > 10000) return "InvalidArgument";
      if (q.length && *q.length != (long long)data.size()) return "IncompleteBody";
      res.etag = "etag-" + std::to_string(s.next++);
      it->second.parts[q.part] = {res.etag, data};
      return "";
    });
  }
  virtual Model::CompleteMultipartUploadOutcome CompleteMultipartUpload(const Model::CompleteMultipartUploadRequest& q) const {
    Model::CompleteMultipartUploadResult res;
    return run("complete", q, q.uploadId, 0, q.upload.parts.size(), res, [&]() -> String {
      auto& s = vfcloud::store();
      auto it = s.uploads.find(q.uploadId);
      if (it == s.uploads.end() || it->second.bucket != q.bucket || it->second.key != q.key) return "NoSuchUpload";
      if (q.upload.parts.empty()) return "MalformedXML";
      String all;
      int last = 0;
      size_t i = 0;
      for (auto& p : q.upload.parts) {
        if (p.number <= last) return "InvalidPartOrder";
        last = p.number;
        auto f = it->second.parts.find(p.number);
        if (f == it->second.parts.end() || f->second.first != p.etag) return "InvalidPart";
        if (++i < q.upload.parts.size() && f->second.second.size() < s.minPart) return "EntityTooSmall";
        all += f->second.second;
      }
      s.objects[{q.bucket, q.key}] = all;
      s.uploads.erase(it);
      return "";
    });
  }
  virtual Model::AbortMultipartUploadOutcome AbortMultipartUpload(const Model::AbortMultipartUploadRequest& q) const {
    Model::AbortMultipartUploadResult res;
    return run("abort", q, q.uploadId, 0, 0, res, [&]() -> String {
      auto& s = vfcloud::store();
      auto it = s.uploads.find(q.uploadId);
      if (it == s.uploads.end() || it->second.bucket != q.bucket || it->second.key != q.key) return "NoSuchUpload";
      s.uploads.erase(it);
      return "";
    });
  }

 private:
  template <class R, class F>
  Outcome<R> run(const char* kind, const Model::ObjectRequest& q, const String& up, int part, size_t size, R& res, F f) const {
    vfcloud::Op op;
    op.kind = kind; op.bucket = q.bucket; op.key = q.key; op.region = config.region; op.upload = up; op.part = part; op.size = size;
    auto r = vfcloud::store().request(op, f);
    if (!r.ok) return Outcome<R>(Error{r.error});
    return Outcome<R>(std::move(res));
  }
};
} // namespace S3
} // namespace Aws
