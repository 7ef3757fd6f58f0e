#pragma once
namespace folly {
inline void init(int*, char***, bool = true) {}
struct Init { Init(int*, char***, bool = true) {} };
}
