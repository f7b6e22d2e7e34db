#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
// A parsed message and its validator.
struct Obj {
  virtual ~Obj() {}
  virtual char Check(std::string* msg) const = 0;   // T, F or X
  virtual bool Mutated() const = 0;
};
typedef std::function<std::unique_ptr<Obj>(const std::string&)> Fn;   // null: not parsable
std::map<std::string, Fn>& table();
