#include "proxy.h"
#include <arpa/inet.h>
#include <cerrno>
#include <cstring>
#include <list>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>
#include "vf.h"

extern "C" int __real_connect(int fd, const struct sockaddr* a, socklen_t len);

namespace vf {
static RelayHook hook;
static std::mutex hm;
static std::list<std::shared_ptr<Relay>> live;

void setRelayHook(RelayHook h) { std::lock_guard<std::mutex> g(hm); hook = std::move(h); }
void joinRelays() {
  std::list<std::shared_ptr<Relay>> l;
  { std::lock_guard<std::mutex> g(hm); l.swap(live); }
  for (auto& r : l) for (auto& t : r->threads) if (t.joinable()) t.join();
}

// one thread per connection, both directions
static void pump(std::shared_ptr<Relay> r, int client, int server) {
  int fd[2] = {client, server}; // direction d: from fd[d] to fd[1-d]; 0 = towards the server
  bool open[2] = {true, true};
  Rng g(r->plan.seed);
  std::vector<char> buf(r->plan.maxChunk);
  auto sever = [&] {
    r->cut = true;
    if (r->plan.reset) {
      struct linger l = {1, 0};
      for (int f : fd) setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    }
    close(fd[0]);
    close(fd[1]);
  };
  for (;;) {
    if (r->severNow) { sever(); return; }
    for (int d = 0; d < 2; d++)
      if (r->plan.cutDir == d && r->passed[d] >= r->plan.cutAt && open[d]) {
        if (r->plan.halfOnly && !r->plan.reset) { r->cut = true; shutdown(fd[1 - d], SHUT_WR); open[d] = false; shutdown(fd[d], SHUT_RD); }
        else { sever(); return; }
      }
    if (!open[0] && !open[1]) break;
    struct pollfd p[2] = {{fd[0], (short)(open[0] ? POLLIN : 0), 0}, {fd[1], (short)(open[1] ? POLLIN : 0), 0}};
    if (!open[0]) p[0].fd = -1;
    if (!open[1]) p[1].fd = -1;
    poll(p, 2, 5);
    for (int d = 0; d < 2; d++) {
      if (!open[d] || !(p[d].revents & (POLLIN | POLLHUP | POLLERR))) continue;
      size_t want = 1 + g.below(r->plan.maxChunk);
      if (r->plan.cutDir == d) want = std::min<uint64_t>(want, r->plan.cutAt - r->passed[d]);
      if (!want) continue;
      ssize_t n = read(fd[d], buf.data(), want);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) { open[d] = false; shutdown(fd[1 - d], SHUT_WR); continue; }
      if (r->plan.delayUs && g.oneIn(4)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(r->plan.delayUs)));
      ssize_t at = 0;
      while (at < n) {
        ssize_t w = send(fd[1 - d], buf.data() + at, n - at, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (w > 0) { at += w; continue; }
        if (w < 0 && (errno == EAGAIN || errno == EINTR)) {
          if (r->severNow) { sever(); return; }
          struct pollfd q = {fd[1 - d], POLLOUT, 0};
          poll(&q, 1, 5);
          // keep the other direction moving so that the two cannot block each other
          struct pollfd o = {fd[1 - d], POLLIN, 0};
          if (open[1 - d] && r->plan.cutDir != 1 - d && poll(&o, 1, 0) > 0 && (o.revents & POLLIN)) {
            char small[4096];
            ssize_t k = recv(fd[1 - d], small, sizeof small, MSG_DONTWAIT);
            if (k > 0) {
              ssize_t s = 0;
              while (s < k) { ssize_t x = send(fd[d], small + s, k - s, MSG_NOSIGNAL); if (x <= 0) break; s += x; }
              r->passed[1 - d] += k;
              if (r->plan.record) { std::lock_guard<std::mutex> l(r->m); r->bytes[1 - d].append(small, k); }
            }
          }
          continue;
        }
        open[d] = false; break;
      }
      r->passed[d] += at;
      count("bytes_relayed", at);
      if (r->plan.record) { std::lock_guard<std::mutex> l(r->m); r->bytes[d].append(buf.data(), at); }
    }
  }
  close(fd[0]);
  close(fd[1]);
}

int listenOn(int port) {
  int s = socket(AF_INET, SOCK_STREAM, 0), on = 1;
  setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = INADDR_ANY;
  a.sin_port = htons(port);
  if (::bind(s, (sockaddr*)&a, sizeof a) < 0 || listen(s, 4) < 0) { close(s); return -1; }
  return s;
}
int freePort(int span) {
  static std::atomic<int> next{0};
  static std::mutex pm;
  std::lock_guard<std::mutex> g(pm);
  const char* sh = getenv("VF_SHARD");
  int shard = sh ? atoi(sh) : 0;
  int base = 11000 + (shard % 10) * 2000;
  for (int t = 0; t < 4000; t++) {
    int p = base + next % (2000 - span);
    next = next + span;
    bool ok = true;
    std::vector<int> held;
    for (int i = 0; i < span && ok; i++) {
      int s = listenOn(p + i);
      if (s < 0) ok = false; else held.push_back(s);
    }
    for (int s : held) close(s);
    if (ok) return p;
  }
  throw std::runtime_error("no free ports");
}
} // namespace vf

extern "C" int __wrap_connect(int fd, const struct sockaddr* a, socklen_t len) {
  using namespace vf;
  if (a->sa_family != AF_INET) return __real_connect(fd, a, len);
  RelayHook h;
  { std::lock_guard<std::mutex> g(hm); h = hook; }
  int port = ntohs(((const sockaddr_in*)a)->sin_port);
  if (!h) return __real_connect(fd, a, len);
  // is the server there? (as the caller would find out)
  int up = socket(AF_INET, SOCK_STREAM, 0);
  if (__real_connect(up, a, len) < 0) { int e = errno; close(up); errno = e; return -1; }
  auto r = h(port);
  if (!r) { close(up); return __real_connect(fd, a, len); }
  r->targetPort = port;
  int ls = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in b{};
  b.sin_family = AF_INET;
  b.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  socklen_t bl = sizeof b;
  if (::bind(ls, (sockaddr*)&b, sizeof b) < 0 || listen(ls, 1) < 0 || getsockname(ls, (sockaddr*)&b, &bl) < 0) { perror("relay"); abort(); }
  int rc = __real_connect(fd, (sockaddr*)&b, sizeof b);
  if (rc < 0) { int e = errno; close(ls); close(up); errno = e; return rc; }
  int down = accept(ls, nullptr, nullptr);
  close(ls);
  std::lock_guard<std::mutex> g(hm);
  r->threads.emplace_back(pump, r, down, up);
  live.push_back(r);
  return 0;
}
