#pragma once
// std::unordered_map asks the C++ runtime when to grow; here it stays with its single bucket (same contract, slower)
#include <unordered_map>
namespace std { namespace __detail {
  std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t, std::size_t) const { return {false, 0}; }
  std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t) const { return 1; }
} }
