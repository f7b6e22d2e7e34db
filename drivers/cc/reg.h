#pragma once
#include "driver.h"
#include "validate/validate.h"
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
template <typename T>
std::string Det(const T& m) {
  std::string s;
  { google::protobuf::io::StringOutputStream os(&s);
    google::protobuf::io::CodedOutputStream co(&os);
    co.SetSerializationDeterministic(true);
    m.SerializePartialToCodedStream(&co); }
  return s;
}
template <typename T>
struct ObjOf : Obj {
  T m; std::string before;
  bool (*check)(const T&, pgv::ValidationMsg*);
  char Check(std::string* msg) const override {
    pgv::ValidationMsg err; char r;
    try { r = check(m, &err) ? 'T' : 'F'; *msg = err; }
    catch (pgv::UnimplementedException& e) { *msg = e.what(); r = 'X'; }
    return r;
  }
  bool Mutated() const override { return before != Det(m); }
};
template <typename T>
std::unique_ptr<Obj> Make(const std::string& bytes, bool (*check)(const T&, pgv::ValidationMsg*)) {
  std::unique_ptr<ObjOf<T>> o(new ObjOf<T>);
  if (!o->m.ParsePartialFromString(bytes)) return nullptr;
  // Det() below works on a copy: it must not touch lazily computed parts of m.
  T copy; copy.ParsePartialFromString(bytes);
  o->before = Det(copy); o->check = check;
  return std::unique_ptr<Obj>(o.release());
}
