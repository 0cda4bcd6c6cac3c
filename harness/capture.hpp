// Captures what the code under test prints to standard output.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <cstdio>
#include <functional>
#include <iostream>
#include <string>
#include <sys/mman.h>
namespace mon {
inline std::string capture(const std::function<void()>& f) {
  std::cout.flush();
  fflush(stdout);
  int saved = dup(1);
  int fd = memfd_create("out", 0);
  if (saved < 0 || fd < 0) abort();
  dup2(fd, 1);
  f();
  std::cout.flush();
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  std::string s;
  char buf[65536];
  lseek(fd, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
  close(fd);
  return s;
}
// Removes terminal colour sequences.
inline std::string plain(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\x1b') {
      while (i < s.size() && s[i] != 'm') ++i;
      continue;
    }
    o += s[i];
  }
  return o;
}
}  // namespace mon
