#pragma once
#include <unordered_map>
namespace folly {
template <class... A> using F14FastMap = std::unordered_map<A...>;
template <class... A> using F14NodeMap = std::unordered_map<A...>;
template <class... A> using F14ValueMap = std::unordered_map<A...>;
}
