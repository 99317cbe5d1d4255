// Text edits of the protocol
#pragma once
#include "hx.h"
#include <algorithm>
#include <lspserver/Protocol.h>

// Offset of an LSP position; -1 when it is not in the text
static long offset(std::string_view X, const lspserver::Position &P) {
  size_t I = 0;
  for (int L = 0; L < P.line; L++) {
    while (I < X.size() && X[I] != '\n')
      I++;
    if (I == X.size())
      return -1;
    I++;
  }
  for (int C = 0; C < P.character;) {
    if (I >= X.size() || X[I] == '\n')
      return -1;
    unsigned char B = X[I];
    size_t Len = B < 0xC0 ? 1 : B < 0xE0 ? 2 : B < 0xF0 ? 3 : 4;
    C += Len == 4 ? 2 : 1;
    I += Len;
  }
  return I <= X.size() ? (long)I : -1;
}

static bool apply(std::string_view Src,
                  const std::vector<lspserver::TextEdit> &Es,
                  std::string &Out) {
  struct Ed {
    long B, E;
    const std::string *T;
  };
  std::vector<Ed> L;
  for (const auto &E : Es) {
    Ed X{offset(Src, E.range.start), offset(Src, E.range.end), &E.newText};
    if (X.B < 0 || X.E < X.B)
      return false;
    L.push_back(X);
  }
  std::stable_sort(L.begin(), L.end(),
                   [](const Ed &A, const Ed &B) { return A.B < B.B; });
  long At = 0;
  for (const Ed &E : L) {
    if (E.B < At)
      return false;
    Out.append(Src.substr(At, E.B - At));
    Out.append(*E.T);
    At = E.E;
  }
  Out.append(Src.substr(At));
  return true;
}

static std::string_view keep(const std::string &S) {
  char *P = (char *)symx_malloc(S.size());
  for (size_t I = 0; I < S.size(); I++)
    P[I] = S[I];
  return {P, S.size()};
}
