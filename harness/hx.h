// Helpers shared by the harnesses.
#pragma once
#include "symx.h"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

// Text under construction: concrete pieces and symbolic bytes. fin() puts it in
// a buffer of exactly its size, so that any read past the end is noticed.
struct Text {
  std::string B;
  Text &s(std::string_view V) {
    B.append(V);
    return *this;
  }
  Text &b(uint8_t Lo = 0, uint8_t Hi = 255) {
    B.push_back((char)symx_api_u8("b", Lo, Hi));
    return *this;
  }
  Text &c(char C) {
    B.push_back(C);
    return *this;
  }
  size_t size() const { return B.size(); }
  std::string_view fin() const {
    char *P = (char *)symx_malloc(B.size());
    for (size_t I = 0; I < B.size(); I++)
      P[I] = B[I];
    return {P, B.size()};
  }
};

// A choice among N alternatives: a symbolic value, made concrete by forking.
inline unsigned choose(unsigned N, const char *Name = "choice") {
  if (N <= 1)
    return 0;
  return (unsigned)symx_api_conc(symx_api_u8(Name, 0, (uint8_t)(N - 1)));
}

#define CHECK(C, L, M) symx_api_assert((C), (L), (M))

// Accumulates differences without branching.
struct Diff {
  uint64_t D = 0;
  void u(uint64_t A, uint64_t B) { D |= A ^ B; }
  bool ok() const { return D == 0; }
};

// Equality of two byte strings without branching on their contents.
inline bool sameBytes(std::string_view A, std::string_view B) {
  if (A.size() != B.size())
    return false;
  unsigned char X = 0;
  for (size_t I = 0; I < A.size(); I++)
    X |= (unsigned char)A[I] ^ (unsigned char)B[I];
  return X == 0;
}
