// Runs a command line tool's real main() in process, with simulated file system and standard streams.
#pragma once
#include <setjmp.h>
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>

#include "harness/file_common.h"

namespace cli {
struct Result {
  int status = 0;
  std::string out, err;
  bool out_fault = false;  // standard output lost bytes
};
inline Result Run(int (*entry)(int, char**), const std::vector<std::string>& args) {
  std::vector<char*> argv;
  for (const auto& a : args) argv.push_back(const_cast<char*>(a.c_str()));
  argv.push_back(nullptr);
  Result r;
  r.status = entry(static_cast<int>(args.size()), argv.data());
  vfs::FlushStd();  // what a normal process exit does
  r.out = vfs::StdOut();
  r.err = vfs::StdErr();
  for (auto& f : vfs::HardFaults()) r.out_fault |= f.path == "<stdout>" && f.op == vfs::kWrite;
  return r;
}
inline std::vector<std::string> Lines(const std::string& s, bool* terminated = nullptr) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < s.size()) {
    const size_t j = s.find('\n', i);
    if (j == std::string::npos) { v.push_back(s.substr(i)); if (terminated) *terminated = false; return v; }
    v.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  if (terminated) *terminated = true;
  return v;
}
inline bool Touches(const std::string& path, const std::string& leaf) {
  return path == leaf || (path.size() > leaf.size() && path.compare(path.size() - leaf.size(), leaf.size(), leaf) == 0 && path[path.size() - leaf.size() - 1] == '/');
}
inline bool HardOn(const std::string& leaf) {
  for (auto& f : vfs::HardFaults())
    if (Touches(f.path, leaf)) return true;
  return false;
}
inline std::string Leaf(const std::string& p) {
  const size_t q = p.rfind('/');
  return q == std::string::npos ? p : p.substr(q + 1);
}
}  // namespace cli
