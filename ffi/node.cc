// A participant of a bus that uses the C or the C++ interface. Obeys commands, one per line, and
// answers each with one line. Handles are numbers chosen by the commander.
#include <memory>
#include <string>
#include "ipmb.h"

#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <iostream>
#include <map>
#include <sstream>
#include <utility>
#include <vector>

using std::string;
namespace f = ipmb_ffi;

static std::vector<int> freed;

[[noreturn]] static void harness(const string& why) {
  fprintf(stderr, "HARNESS ffinode: %s\n", why.c_str());
  _exit(3);
}

static string unhex(const string& s) {
  if (s == "-") return "";
  string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char)std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}

static std::vector<string> split(const string& s, char c) {
  std::vector<string> v;
  std::stringstream ss(s);
  string t;
  while (std::getline(ss, t, c)) v.push_back(t);
  return v;
}

// The generator of the harness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed ^ 0x9e3779b97f4a7c15ull) { next(); }
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

static std::vector<uint8_t> fill(uint64_t seed, size_t n) {
  Rng r(seed);
  std::vector<uint8_t> v;
  while (v.size() < n) {
    uint64_t x = r.next();
    for (int i = 0; i < 8; i++) v.push_back((uint8_t)(x >> (8 * i)));
  }
  v.resize(n);
  return v;
}

static uint64_t fnv(const uint8_t* p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x1000000001b3ull;
  return h;
}

static string code(int c) {
  switch (c) {
    case 0: return "ok";
    case -1: return "unknown";
    case -2: return "timeout";
    case -3: return "decode";
    case -4: return "version";
    case -5: return "token";
    case -6: return "permission";
    default: return "code" + std::to_string(c);
  }
}

static string code(ipmb::Error e) {
  switch (e) {
    case ipmb::Error::kSuccess: return "ok";
    case ipmb::Error::kUnknown: return "unknown";
    case ipmb::Error::kTimeout: return "timeout";
    case ipmb::Error::kDecode: return "decode";
    case ipmb::Error::kVersionMismatch: return "version";
    case ipmb::Error::kTokenMismatch: return "token";
    case ipmb::Error::kPermissionDenied: return "permission";
    default: return "error" + std::to_string((int)e);
  }
}

static string identity(f::Object o) {
  if (o == 0) return "null";
  struct stat st;
  if (fstat((int)o, &st) != 0) return "closed";
  if (!(fcntl((int)o, F_GETFD) & FD_CLOEXEC)) return "inheritable";
  return std::to_string(st.st_ino);
}

static f::Object new_object(uint64_t seed) {
  int fd = memfd_create("vh", MFD_CLOEXEC);
  if (fd <= 0) harness("memfd");
  auto v = fill(seed, 32);
  if (write(fd, v.data(), v.size()) != 32) harness("write");
  return (f::Object)fd;
}

extern "C" void on_free(void* p) { freed.push_back((int)(intptr_t)p); }

static f::SelectorMode mode(const string& s) { return s == "u" ? f::SelectorMode::kUnicast : f::SelectorMode::kMulticast; }

// ---------------------------------------------------------------------------------------- C

static void* const POISON = (void*)0x5a5a5a5a;

struct CApi {
  using Lab = f::LabelOp;
  struct End {
    f::Sender s = nullptr;
    f::Receiver r = nullptr;
  };
  std::map<int, End> ends;
  std::map<int, f::Message> msgs;
  std::map<int, f::MemoryRegion> regions;
  std::map<int, f::MemoryRegistry> regs;

  static Lab parse(const string& t, size_t& at) {
    char c = t.at(at++);
    switch (c) {
      case 'T': return f::ipmb_label_op_bool(true);
      case 'F': return f::ipmb_label_op_bool(false);
      case 'L': {
        size_t k = t.find(':', at);
        size_t n = std::stoul(t.substr(at, k - at));
        string s = t.substr(k + 1, n);
        at = k + 1 + n;
        return f::ipmb_label_op_leaf(s.c_str());
      }
      case 'N': return f::ipmb_label_op_not(parse(t, at));
      case 'A': {
        Lab a = parse(t, at);
        Lab b = parse(t, at);
        return f::ipmb_label_op_and(a, b);
      }
      case 'O': {
        Lab a = parse(t, at);
        Lab b = parse(t, at);
        return f::ipmb_label_op_or(a, b);
      }
    }
    harness("formula " + t);
  }

  string join(int e, const string& ident, const std::vector<string>& label, const string& token, bool aff, uint32_t timeout, const string& want) {
    f::Label l = f::ipmb_label();
    for (auto& x : label) f::ipmb_label_insert(&l, x.c_str());
    f::Options o{ident.c_str(), &l, token.c_str(), aff};
    f::Sender s = POISON;
    f::Receiver r = POISON;
    int c = f::ipmb_join(o, timeout, want == "r" ? nullptr : &s, want == "s" ? nullptr : &r);
    f::ipmb_label_drop(l);
    if (c == 0) {
      if (want != "r") ends[e].s = s;
      if (want != "s") ends[e].r = r;
    } else if (s != POISON || r != POISON) {
      return "wrote handles and returned " + code(c);
    }
    return code(c);
  }
  string msg(int m, const string& md, const string& expr, uint32_t ttl, uint16_t format, const std::vector<uint8_t>& data) {
    size_t at = 0;
    Lab l = parse(expr, at);
    f::Selector s{&l, mode(md), ttl};
    msgs[m] = f::ipmb_message(s, format, data.empty() ? nullptr : data.data(), (uint32_t)data.size());
    f::ipmb_label_op_drop(l);
    return "ok";
  }
  void mobj(int m, f::Object o) { f::ipmb_message_object_append(&msgs.at(m), o); }
  void mreg(int m, int r) {
    f::ipmb_message_memory_region_append(&msgs.at(m), regions.at(r));
    regions.erase(r);
  }
  string send(int e, int m) {
    f::Message x = msgs.at(m);
    msgs.erase(m);
    return code(f::ipmb_send(&ends.at(e).s, x));
  }
  void mdrop(int m) {
    f::ipmb_message_drop(msgs.at(m));
    msgs.erase(m);
  }
  string recv(int e, int m, uint32_t timeout) {
    f::Message x = POISON;
    int c = f::ipmb_recv(&ends.at(e).r, &x, timeout);
    if (c == 0)
      msgs[m] = x;
    else if (x != POISON)
      return "wrote a message and returned " + code(c);
    return code(c);
  }
  string mdata(int m) {
    uint16_t fm = 0;
    const uint8_t* p = nullptr;
    uint32_t n = 77;
    f::ipmb_message_bytes_data(&msgs.at(m), &fm, &p, &n);
    return std::to_string(fm) + " " + std::to_string(n) + " " + std::to_string(fnv(p, n));
  }
  f::Object oget(int m, size_t i) { return f::ipmb_message_object_get(&msgs.at(m), i); }
  f::Object otake(int m, size_t i) { return f::ipmb_message_object_retrieve(&msgs.at(m), i); }
  string rget(int m, size_t i) {
    f::MemoryRegion g = f::ipmb_message_memory_region_get(&msgs.at(m), i);
    if (!g) return "null";
    intptr_t n = -5;
    uint8_t* p = f::ipmb_memory_region_map(&g, 0, -1, &n);
    if (!p) return "unmappable";
    return std::to_string(n) + " " + std::to_string(fnv(p, (size_t)n));
  }
  string rtake(int m, size_t i, int r) {
    f::MemoryRegion g = f::ipmb_message_memory_region_retrieve(&msgs.at(m), i);
    if (!g) return "null";
    regions[r] = g;
    return "ok";
  }
  string rnew(int r, uintptr_t size) {
    f::MemoryRegion g = POISON;
    int c = f::ipmb_memory_region(size, &g);
    if (c == 0)
      regions[r] = g;
    else if (g != POISON)
      return "wrote a region and returned " + code(c);
    return code(c);
  }
  uint8_t* rmap(int r, uintptr_t off, intptr_t size, intptr_t& n) {
    intptr_t* p = (off + size) % 7 == 3 && size >= 0 ? nullptr : &n;  // the size may be left out
    if (!p) n = size;
    return f::ipmb_memory_region_map(&regions.at(r), off, size, p);
  }
  uint32_t rcount(int r) { return f::ipmb_memory_region_ref_count(&regions.at(r)); }
  string rclone(int r, int r2) {
    f::MemoryRegion g = POISON;
    int c = f::ipmb_memory_region_clone(&regions.at(r), &g);
    if (c == 0) regions[r2] = g;
    return code(c);
  }
  void rdrop(int r) {
    f::ipmb_memory_region_drop(regions.at(r));
    regions.erase(r);
  }
  void greg(int g) { regs[g] = f::ipmb_memory_registry(); }
  string galloc(int g, uintptr_t n, const string* tag, int cb, int r) {
    f::MemoryRegion x = POISON;
    int c;
    if (cb < 0)
      c = f::ipmb_memory_registry_alloc(&regs.at(g), n, tag ? tag->c_str() : nullptr, &x);
    else
      c = f::ipmb_memory_registry_alloc_with_free(&regs.at(g), n, tag ? tag->c_str() : nullptr, (void*)(intptr_t)cb, cb == 0 ? nullptr : on_free, &x);
    if (c == 0)
      regions[r] = x;
    else if (x != POISON)
      return "wrote a region and returned " + code(c);
    return code(c);
  }
  void gmaintain(int g) { f::ipmb_memory_registry_maintain(&regs.at(g)); }
  void gdrop(int g) {
    f::ipmb_memory_registry_drop(regs.at(g));
    regs.erase(g);
  }
  void sdrop(int e) {
    f::ipmb_sender_drop(ends.at(e).s);
    ends[e].s = nullptr;
  }
  void xdrop(int e) {
    f::ipmb_receiver_drop(ends.at(e).r);
    ends[e].r = nullptr;
  }
  string version() {
    uint8_t a = 0, b = 0, c = 0;
    f::ipmb_version(&a, nullptr, &c);
    f::ipmb_version(nullptr, &b, nullptr);
    f::RString s = f::ipmb_version_pre();
    const char* p = nullptr;
    uintptr_t n = 99;
    f::ipmb_rstring_data(&s, &p, &n);
    string pre(p, n);
    f::ipmb_rstring_drop(s);
    return std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c) + " " + pre;
  }
};

// ---------------------------------------------------------------------------------------- C++

struct CppApi {
  struct End {
    std::unique_ptr<ipmb::Sender> s;
    std::unique_ptr<ipmb::Receiver> r;
  };
  std::map<int, End> ends;
  std::map<int, ipmb::Message> msgs;
  std::map<int, ipmb::MemoryRegion> regions;
  std::map<int, ipmb::MemoryRegistry> regs;

  template <class V>
  static V take(std::map<int, V>& m, int k) {
    auto it = m.find(k);
    if (it == m.end()) harness("handle");
    V v = std::move(it->second);
    m.erase(it);
    return v;
  }

  static ipmb::LabelOp parse(const string& t, size_t& at) {
    char c = t.at(at++);
    switch (c) {
      case 'T': return ipmb::LabelOp(true);
      case 'F': return ipmb::LabelOp(false);
      case 'L': {
        size_t k = t.find(':', at);
        size_t n = std::stoul(t.substr(at, k - at));
        string s = t.substr(k + 1, n);
        at = k + 1 + n;
        if (n % 2) return ipmb::LabelOp(s.c_str());
        return ipmb::LabelOp(s);
      }
      case 'N': {
        auto a = parse(t, at);
        a.op_not();
        return a;
      }
      case 'A': {
        auto a = parse(t, at);
        a.op_and(parse(t, at));
        return a;
      }
      case 'O': {
        auto a = parse(t, at);
        a.op_or(parse(t, at));
        return a;
      }
    }
    harness("formula " + t);
  }
  string join(int e, const string& ident, const std::vector<string>& label, const string& token, bool aff, uint32_t timeout, const string& want) {
    ipmb::Label l;
    if (label.size() == 2)
      l = ipmb::Label{label[0], label[1]};
    else
      for (auto& x : label) l.append(x);
    ipmb::Options o(ident, std::move(l), token, aff);
    auto [s, r, err] = ipmb::join(o, timeout);
    if (err == ipmb::Error::kSuccess) {
      if (want != "r") ends[e].s = std::make_unique<ipmb::Sender>(std::move(s));
      if (want != "s") ends[e].r = std::make_unique<ipmb::Receiver>(std::move(r));
    }
    return code(err);
  }
  string msg(int m, const string& md, const string& expr, uint32_t ttl, uint16_t format, const std::vector<uint8_t>& data) {
    size_t at = 0;
    ipmb::Selector s(parse(expr, at), mode(md), ttl);
    msgs.erase(m);
    msgs.emplace(m, ipmb::Message(s, format, data.empty() ? nullptr : data.data(), (uint32_t)data.size()));
    return "ok";
  }
  void mobj(int m, f::Object o) { msgs.at(m).object_append(o); }
  void mreg(int m, int r) { msgs.at(m).memory_region_append(take(regions, r)); }
  string send(int e, int m) { return code(ends.at(e).s->send(take(msgs, m))); }
  void mdrop(int m) { take(msgs, m); }
  string recv(int e, int m, uint32_t timeout) {
    auto [x, err] = ends.at(e).r->recv(timeout);
    if (err == ipmb::Error::kSuccess) {
      msgs.erase(m);
      msgs.emplace(m, std::move(x));
    }
    return code(err);
  }
  string mdata(int m) {
    auto [fm, p, n, err] = msgs.at(m).bytes_data();
    if (err != ipmb::Error::kSuccess) return code(err);
    return std::to_string(fm) + " " + std::to_string(n) + " " + std::to_string(fnv(p, n));
  }
  f::Object oget(int m, size_t i) {
    auto [o, err] = msgs.at(m).object_get(i);
    if ((err == ipmb::Error::kSuccess) != (o != 0)) harness("object_get");
    return o;
  }
  f::Object otake(int m, size_t i) {
    auto [o, err] = msgs.at(m).object_retrieve(i);
    if ((err == ipmb::Error::kSuccess) != (o != 0)) harness("object_retrieve");
    return o;
  }
  string rget(int, size_t) { return "unsupported"; }
  string rtake(int m, size_t i, int r) {
    auto [g, err] = msgs.at(m).memory_region_retrieve(i);
    if (err != ipmb::Error::kSuccess) return err == ipmb::Error::kUnknown ? "null" : code(err);
    regions.erase(r);
    regions.emplace(r, std::move(g));
    return "ok";
  }
  string put(int r, std::tuple<ipmb::MemoryRegion, ipmb::Error> x) {
    auto& [g, err] = x;
    if (err == ipmb::Error::kSuccess) {
      regions.erase(r);
      regions.emplace(r, std::move(g));
    }
    return code(err);
  }
  string rnew(int r, uintptr_t size) { return put(r, ipmb::MemoryRegion::create(size)); }
  uint8_t* rmap(int r, uintptr_t off, intptr_t size, intptr_t& n) {
    auto [p, k, err] = regions.at(r).map(off, size);
    if ((err == ipmb::Error::kSuccess) != (p != nullptr)) harness("map");
    n = k;
    return p;
  }
  uint32_t rcount(int r) { return std::get<0>(regions.at(r).ref_count()); }
  string rclone(int r, int r2) { return put(r2, regions.at(r).clone()); }
  void rdrop(int r) { take(regions, r); }
  void greg(int g) { regs[g]; }
  string galloc(int g, uintptr_t n, const string* tag, int cb, int r) {
    if (cb < 0) return put(r, regs.at(g).alloc(n, tag));
    string guard(100, 'x');  // the callback owns something
    return put(r, regs.at(g).alloc_with_free(n, tag, [cb, guard] {
      if (cb && guard.size() == 100) freed.push_back(cb);
    }));
  }
  void gmaintain(int g) { regs.at(g).maintain(); }
  void gdrop(int g) { regs.erase(g); }
  void sdrop(int e) { ends.at(e).s.reset(); }
  void xdrop(int e) { ends.at(e).r.reset(); }
  string version() {
    ipmb::Version v;
    return std::to_string(v.major) + "." + std::to_string(v.minor) + "." + std::to_string(v.patch) + " " + v.pre;
  }
};

// ---------------------------------------------------------------------------------------- commands

template <class A>
struct Node {
  A a;
  std::map<int, f::Object> objs;

  string run(const std::vector<string>& w) {
    auto num = [&](size_t i) { return std::stoi(w.at(i)); };
    auto big = [&](size_t i) { return (uint64_t)std::stoull(w.at(i)); };
    const string& c = w.at(0);
    if (c == "join") {
      std::vector<string> label;
      if (w.at(3) != "-")
        for (auto& x : split(w.at(3), ',')) label.push_back(unhex(x));
      return a.join(num(1), unhex(w.at(2)), label, unhex(w.at(4)), w.at(5) == "1", (uint32_t)big(6), w.at(7));
    }
    if (c == "msg") {
      return a.msg(num(1), w.at(2), unhex(w.at(3)), (uint32_t)big(4), (uint16_t)big(5), fill(big(6), big(7)));
    }
    if (c == "obj") {
      objs[num(1)] = new_object(big(2));
      return identity(objs[num(1)]);
    }
    if (c == "mobj") {
      a.mobj(num(1), objs.at(num(2)));
      objs.erase(num(2));
      return "ok";
    }
    if (c == "mreg") {
      a.mreg(num(1), num(2));
      return "ok";
    }
    if (c == "send") return a.send(num(1), num(2));
    if (c == "mdrop") {
      a.mdrop(num(1));
      return "ok";
    }
    if (c == "recv") return a.recv(num(1), num(2), (uint32_t)big(3));
    if (c == "mdata") return a.mdata(num(1));
    if (c == "oget") return identity(a.oget(num(1), big(2)));
    if (c == "otake") {
      f::Object o = a.otake(num(1), big(2));
      if (o) objs[num(3)] = o;
      return identity(o);
    }
    if (c == "oid") {
      uint8_t b[32];
      f::Object o = objs.at(num(1));
      if (pread((int)o, b, 32, 0) != 32) return "unreadable";
      return identity(o) + " " + std::to_string(fnv(b, 32));
    }
    if (c == "odrop") {
      f::Object o = objs.at(num(1));
      objs.erase(num(1));
      f::ipmb_object_drop(o);
      return identity(o);
    }
    if (c == "rget") return a.rget(num(1), big(2));
    if (c == "rtake") return a.rtake(num(1), big(2), num(3));
    if (c == "rnew") return a.rnew(num(1), big(2));
    if (c == "rmap") {
      intptr_t n = -9;
      uint8_t* p = a.rmap(num(1), big(2), (intptr_t)std::stoll(w.at(3)), n);
      if (!p) return "null";
      return std::to_string(n) + " " + std::to_string(fnv(p, (size_t)n));
    }
    if (c == "rwrite") {
      intptr_t n = 0;
      size_t len = big(3);
      uint8_t* p = a.rmap(num(1), big(2), (intptr_t)len, n);
      if (!p) return "null";
      auto v = fill(big(4), len);
      if (len) memcpy(p, v.data(), len);
      return "ok";
    }
    if (c == "rcount") return std::to_string(a.rcount(num(1)));
    if (c == "rclone") return a.rclone(num(1), num(2));
    if (c == "rdrop") {
      a.rdrop(num(1));
      return "ok";
    }
    if (c == "greg") {
      a.greg(num(1));
      return "ok";
    }
    if (c == "galloc") {
      string tag = w.at(3) == "null" ? "" : unhex(w.at(3));
      return a.galloc(num(1), big(2), w.at(3) == "null" ? nullptr : &tag, num(4), num(5));
    }
    if (c == "gmaintain") {
      a.gmaintain(num(1));
      return "ok";
    }
    if (c == "gdrop") {
      a.gdrop(num(1));
      return "ok";
    }
    if (c == "freed") {
      string s = "freed";
      for (int i : freed) s += " " + std::to_string(i);
      return s;
    }
    if (c == "sdrop") {
      a.sdrop(num(1));
      return "ok";
    }
    if (c == "xdrop") {
      a.xdrop(num(1));
      return "ok";
    }
    if (c == "version") return a.version();
    if (c == "fds") {
      int n = 0;
      DIR* d = opendir("/proc/self/fd");
      while (readdir(d)) n++;
      closedir(d);
      return std::to_string(n);
    }
    harness("command " + c);
  }
};

template <class A>
int serve() {
  {
    Node<A> n;
    string line;
    while (std::getline(std::cin, line)) {
      if (line == "quit") break;
      std::cout << n.run(split(line, ' ')) << std::endl;
    }
    // The commander has dropped everything
  }
  std::cout << "bye" << std::endl;
  return 0;
}

int main(int argc, char** argv) {
  if (argc == 2 && !strcmp(argv[1], "c")) return serve<CApi>();
  if (argc == 2 && !strcmp(argv[1], "cpp")) return serve<CppApi>();
  harness("usage: ffinode c|cpp");
}
