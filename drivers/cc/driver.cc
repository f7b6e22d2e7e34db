// Generic driver.  One request per line:
//   "<id> <full message name> <hex bytes>"                    one call
//   "<id> H <objects> {<name> <hex>}  <events> {b <proc> <obj> | e <proc>}"   a history of calls
// Answers "<id> <T|F|X> <mutated 0/1> <hex of the message or exception text>"; a
// history answers with one verdict and text per event e, in order, ";" between.
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <mutex>
#include <sstream>
#include <thread>
#include <vector>
#include "driver.h"

std::map<std::string, Fn>& table() { static std::map<std::string, Fn> t; return t; }

static std::string unhex(const std::string& h) {
  std::string o; o.reserve(h.size() / 2);
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < h.size(); i += 2) o.push_back(static_cast<char>(v(h[i]) * 16 + v(h[i + 1])));
  return o;
}
static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef"; std::string o;
  for (unsigned char c : s) { o.push_back(d[c >> 4]); o.push_back(d[c & 15]); }
  return o;
}
struct Caller {   // a thread that performs one call at a time
  std::mutex mu; std::condition_variable cv;
  const Obj* todo = nullptr; bool busy = false, stop = false;
  char r = 0; std::string msg;
  std::thread t;
  Caller() : t([this] { Run(); }) {}
  ~Caller() { { std::lock_guard<std::mutex> l(mu); stop = true; } cv.notify_all(); t.join(); }
  void Run() {
    std::unique_lock<std::mutex> l(mu);
    for (;;) {
      cv.wait(l, [this] { return todo || stop; });
      if (!todo) return;
      const Obj* o = todo; l.unlock();
      std::string m; char c = o->Check(&m);
      l.lock(); r = c; msg = m; todo = nullptr; busy = false; cv.notify_all();
    }
  }
  void Begin(const Obj* o) { { std::lock_guard<std::mutex> l(mu); todo = o; busy = true; } cv.notify_all(); }
  char End(std::string* m) { std::unique_lock<std::mutex> l(mu); cv.wait(l, [this] { return !busy; }); *m = msg; return r; }
};
static std::unique_ptr<Obj> build(const std::string& name, const std::string& h, char* why) {
  auto it = table().find(name);
  if (it == table().end()) { *why = 'N'; return nullptr; }
  auto o = it->second(unhex(h));
  if (!o) *why = 'P';
  return o;
}
int main() {
  std::ios::sync_with_stdio(false);
  std::string line;
  std::map<int, std::unique_ptr<Caller>> callers;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string id, name, h; is >> id >> name;
    char why = 0;
    if (name == "H") {
      int n; is >> n;
      std::vector<std::unique_ptr<Obj>> objs;
      for (int i = 0; i < n; i++) { h.clear(); is >> name >> h; if (h == "-") h.clear(); objs.push_back(build(name, h, &why)); }
      if (why) { std::cout << id << ' ' << why << " 0 \n"; continue; }
      std::string out; char ev; int p, o;
      while (is >> ev >> p) {
        auto& c = callers[p];
        if (!c) c.reset(new Caller);
        if (ev == 'b') { is >> o; c->Begin(objs[o - 1].get()); }
        else { std::string m; char r = c->End(&m); out += std::string(out.empty() ? "" : ";") + r + hex(m); }
      }
      bool mutated = false;
      for (auto& x : objs) mutated = mutated || x->Mutated();
      std::cout << id << " H " << (mutated ? 1 : 0) << ' ' << out << std::endl;
      continue;
    }
    is >> h;
    auto obj = build(name, h, &why);
    if (!obj) { std::cout << id << ' ' << why << " 0 \n"; continue; }
    std::string msg;
    char r = obj->Check(&msg);
    std::cout << id << ' ' << r << ' ' << (obj->Mutated() ? 1 : 0) << ' ' << hex(msg) << std::endl;
  }
  return 0;
}
