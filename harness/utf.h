// Text made of a bounded number of characters of every encoded length, with
// the code units computed independently of the code under test.
#pragma once
#include "hx.h"

struct UChar {
  unsigned Bytes, Units;
  bool NL;
};
// One character of valid UTF-8: class chosen, bytes symbolic within the class.
inline UChar putChar(std::string &B, unsigned Classes = 5) {
  auto b = [&](uint8_t Lo, uint8_t Hi) {
    B.push_back((char)symx_api_u8("b", Lo, Hi));
  };
  switch (choose(Classes)) {
  case 0:
    B.push_back('\n');
    return {1, 1, true};
  case 1: {
    uint8_t C = symx_api_u8("b", 0, 0x7F);
    symx_api_assume(C != '\n');
    B.push_back((char)C);
    return {1, 1, false};
  }
  case 2:
    b(0xC2, 0xDF);
    b(0x80, 0xBF);
    return {2, 1, false};
  case 3:
    switch (choose(3)) {
    case 0:
      b(0xE0, 0xE0);
      b(0xA0, 0xBF);
      break;
    case 1:
      b(0xED, 0xED);
      b(0x80, 0x9F);
      break;
    default: {
      uint8_t C = symx_api_u8("b", 0xE1, 0xEF);
      symx_api_assume(C != 0xED);
      B.push_back((char)C);
      b(0x80, 0xBF);
    }
    }
    b(0x80, 0xBF);
    return {3, 1, false};
  default:
    switch (choose(3)) {
    case 0:
      b(0xF0, 0xF0);
      b(0x90, 0xBF);
      break;
    case 1:
      b(0xF4, 0xF4);
      b(0x80, 0x8F);
      break;
    default:
      b(0xF1, 0xF3);
      b(0x80, 0xBF);
    }
    b(0x80, 0xBF);
    b(0x80, 0xBF);
    return {4, 2, false};
  }
}
struct UText {
  std::string B;
  std::vector<UChar> C;
  void add(unsigned N, unsigned Classes = 5) {
    while (N--)
      C.push_back(putChar(B, Classes));
  }
  // line, column in UTF-16 code units and byte offset of the boundary before
  // character I
  struct At {
    int Line, Col;
    size_t Off;
  };
  At at(size_t I) const {
    At A{0, 0, 0};
    for (size_t K = 0; K < I; K++) {
      A.Off += C[K].Bytes;
      if (C[K].NL)
        A.Line++, A.Col = 0;
      else
        A.Col += C[K].Units;
    }
    return A;
  }
  // Where (line, column) lies: the offset, and whether such a position exists.
  // A column in the middle of a pair or past the end of the line is not one;
  // Off is then the next boundary, or the end of the line.
  struct Loc {
    bool Line, Exact;
    size_t Off;
  };
  Loc locate(int Line, int Col) const {
    size_t Off = 0, I = 0;
    for (int L = 0; L < Line; L++) {
      while (I < C.size() && !C[I].NL)
        Off += C[I++].Bytes;
      if (I == C.size())
        return {false, false, 0};
      Off += 1;
      I++;
    }
    int U = 0;
    while (U < Col && I < C.size() && !C[I].NL) {
      U += C[I].Units;
      Off += C[I++].Bytes;
    }
    return {true, U == Col, Off};
  }
  std::string_view fin() const {
    char *P = (char *)symx_malloc(B.size());
    for (size_t I = 0; I < B.size(); I++)
      P[I] = B[I];
    return {P, B.size()};
  }
};
