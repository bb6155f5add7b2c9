#include "art.h"
#include <cstring>
static void P4(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s.push_back((char)(v >> (8 * i))); }
static void P8(std::string& s, uint64_t v) { for (int i = 0; i < 8; ++i) s.push_back((char)(v >> (8 * i))); }
Art Art::Parse(const std::string& b) {
  Art a;
  size_t p = 0;
  bool bad = false;
  auto u = [&](int n) -> uint64_t { if (bad || b.size() - p < (size_t)n) { bad = true; return 0; } uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t)(uint8_t)b[p + i] << (8 * i); p += n; return v; };
  auto str = [&](uint64_t n) -> std::string { if (bad || b.size() - p < n) { bad = true; return ""; } std::string s = b.substr(p, n); p += n; return s; };
  if (str(4) != "JFCA") return a;
  a.o_version = p; a.version = (uint32_t)u(4);
  a.o_llvm = p; a.llvm = str(u(4));
  a.o_triple = p; a.triple = str(u(4));
  a.o_cpu = p; a.cpu = str(u(4));
  a.o_mode = p; a.mode = (uint8_t)u(1);
  a.o_fp = p; a.fp = (uint8_t)u(1);
  a.o_num = p;
  uint64_t n = u(4);
  a.o_types = p;
  for (char c : str(n)) a.types.push_back((uint8_t)c);
  a.o_objsize = p;
  uint64_t sz = u(8);
  a.o_obj = p;
  a.obj = str(sz);
  a.o_ext = p;
  uint64_t ne = u(4);
  for (uint64_t i = 0; i < ne && !bad; ++i) { uint32_t t = (uint32_t)u(4); a.ext.emplace_back(t, str(u(4))); }
  a.o_footer = p;
  if (str(4) != "JFCE" || p != b.size()) bad = true;
  a.ok = !bad;
  return a;
}
std::string Art::Build() const {
  std::string s = "JFCA";
  P4(s, version);
  for (auto* x : {&llvm, &triple, &cpu}) { P4(s, (uint32_t)x->size()); s += *x; }
  s.push_back((char)mode);
  s.push_back((char)fp);
  P4(s, (uint32_t)types.size());
  for (uint8_t t : types) s.push_back((char)t);
  P8(s, obj.size());
  s += obj;
  P4(s, (uint32_t)ext.size());
  for (auto& e : ext) { P4(s, e.first); P4(s, (uint32_t)e.second.size()); s += e.second; }
  return s + "JFCE";
}
