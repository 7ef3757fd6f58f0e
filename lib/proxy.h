// Real sockets under observation: with -Wl,--wrap=connect every TCP connection
// the code opens passes through a relay that records, chops, delays or severs it.
#pragma once
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace vf {
struct Relay {
  // set before the connection is made
  struct Plan {
    size_t maxChunk = 65536;
    uint32_t delayUs = 0;
    bool record = true;
    int cutDir = -1;       // 0: towards the server, 1: towards the client, -1 never
    uint64_t cutAt = 0;    // forwards exactly this many bytes of that direction, then severs
    bool reset = false;    // by RST instead of a close
    bool halfOnly = false; // close only the cut direction
    uint64_t seed = 1;
  };
  Plan plan;
  int targetPort = 0;
  std::mutex m;
  std::string bytes[2];            // what was forwarded, when recorded
  std::atomic<uint64_t> passed[2]; // forwarded byte counts
  std::atomic<bool> cut{false};
  std::atomic<bool> severNow{false}; // set to sever at once
  std::vector<std::thread> threads;
  Relay() { passed[0] = 0; passed[1] = 0; }
};
// Called for every outgoing connection; returns the plan to use, or none for a direct one.
using RelayHook = std::function<std::shared_ptr<Relay>(int port)>;
void setRelayHook(RelayHook h);
void joinRelays(); // waits for the pumps of connections that are over
int freePort(int span); // first of `span` consecutive ports nobody listens on
int listenOn(int port); // a listening socket on that port
} // namespace vf
