// Stand-in: dReal only collects strings in it for a debugging option.
#pragma once
#include <iostream>
#include <string>
#include <vector>
namespace nlohmann {
class json {
 public:
  void push_back(const json& j) { v_.push_back(j); }
  void push_back(const std::string& s) { json j; j.s_ = s; v_.push_back(j); }
  json& back() { return v_.back(); }
  std::vector<json> v_;
  std::string s_;
};
inline std::ostream& operator<<(std::ostream& os, const json&) { return os; }
}  // namespace nlohmann
