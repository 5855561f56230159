// The published (order,size) pairs of each family.
#pragma once
#include <map>
#include <string>
namespace mc {
inline const std::map<std::string, std::map<int, int>>& catalogue() {
  static const std::map<std::string, std::map<int, int>> c = {
#include "catalogue.inc"
  };
  return c;
}
}  // namespace mc
