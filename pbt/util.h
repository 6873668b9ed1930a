// Helpers shared by the harnesses.
#pragma once
#include "pbt.h"
#include <cstdlib>
#include <memory>
#include <string>

/// A copy of some bytes in a heap block of exactly that size, so that AddressSanitizer sees any
/// access outside of it.
struct Exact {
  char *p;
  size_t n;
  explicit Exact(std::string_view s) : p(static_cast<char *>(malloc(s.size() ? s.size() : 1))), n(s.size())
  {
    if (n)
      memcpy(p, s.data(), n);
    if (!n) { // make it zero sized for real.
      free(p);
      p = static_cast<char *>(malloc(0));
    }
  }
  Exact(Exact const &) = delete;
  ~Exact() { free(p); }
  std::string_view
  view() const
  {
    return {p, n};
  }
};
