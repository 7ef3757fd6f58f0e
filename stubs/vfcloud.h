// An in-memory object store with a request log and fault injection, behind
// stand-ins for the S3 and GCS client libraries.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

namespace vfcloud {
enum class Fault { None, Fail, FailAfter /* done, but the answer is lost */, Partial /* a download breaks off half-way */ };
struct Op { std::string kind, bucket, key, region, upload; int part = 0; size_t size = 0; bool ok = false; };
struct Upload { std::string bucket, key; std::map<int, std::pair<std::string, std::string>> parts; /* number -> etag, data */ std::string data; };
struct Store {
  std::mutex m;
  std::map<std::pair<std::string, std::string>, std::string> objects;
  std::map<std::string, Upload> uploads; // open ones
  std::vector<Op> log;
  std::function<Fault(const Op&)> fault;
  size_t minPart = 0;        // all parts but the last must have this size (S3)
  size_t gcsBuffer = 1 << 20; // bytes a GCS write stream gathers before sending
  uint64_t next = 1;
  void reset() {
    std::lock_guard<std::mutex> g(m);
    objects.clear(); uploads.clear(); log.clear(); fault = nullptr; minPart = 0; gcsBuffer = 1 << 20;
  }
  // one request; `act` performs it and says whether the store accepts it
  struct Result { bool ok; std::string error; };
  template <class F> Result request(Op op, F act, Fault* which = nullptr) {
    std::lock_guard<std::mutex> g(m);
    Fault f = fault ? fault(op) : Fault::None;
    if (which) *which = f;
    Result r{false, "injected failure of " + op.kind};
    if (f != Fault::Fail) {
      std::string e = act();
      if (!e.empty()) r = {false, e};
      else if (f == Fault::None || f == Fault::Partial) r = {true, ""};
    }
    op.ok = r.ok;
    log.push_back(op);
    return r;
  }
};
inline Store& store() { static Store s; return s; }
} // namespace vfcloud
