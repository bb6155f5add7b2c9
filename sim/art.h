// Independent reader/writer of the artifact framing (from the format description), used to craft damaged artifacts.
#pragma once
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
struct Art {
  uint32_t version = 0;
  std::string llvm, triple, cpu;
  uint8_t mode = 0, fp = 0;
  std::vector<uint8_t> types;
  std::string obj;
  std::vector<std::pair<uint32_t, std::string>> ext;
  bool ok = false;
  // offsets of the fields in the bytes parsed
  size_t o_version = 0, o_llvm = 0, o_triple = 0, o_cpu = 0, o_mode = 0, o_fp = 0, o_num = 0, o_types = 0, o_objsize = 0, o_obj = 0, o_ext = 0, o_footer = 0;
  static Art Parse(const std::string& b);
  std::string Build() const;
  // bytes that are framing, i.e. not the machine code object
  bool Framing(size_t off) const { return off < o_obj || off >= o_ext; }
};
