// Walks over nixf trees; checks of source positions.
#pragma once
#include "hx.h"
#include <nixf/Basic/Diagnostic.h>
#include <nixf/Basic/Nodes/Basic.h>
#include <string_view>
#include <vector>

// Line and column of every offset (0..size), computed without branching on the
// text.
struct Lines {
  std::vector<uint64_t> L, C;
  // Fork: decide per byte whether it ends a line, so that the table is concrete
  explicit Lines(std::string_view S, bool Fork = false) {
    uint64_t Ln = 0, Co = 0;
    L.push_back(0);
    C.push_back(0);
    for (char Ch : S) {
      uint64_t NL = (unsigned char)Ch == '\n';
      if (Fork)
        NL = symx_api_conc(NL);
      Ln += NL;
      Co = (Co + 1) * (1 - NL);
      L.push_back(Ln);
      C.push_back(Co);
    }
  }
};

struct PosCheck {
  std::string_view Src;
  Lines T;
  uint64_t D = 0;            // difference of lines and columns
  bool Order = true, Nest = true, Depth = true;
  explicit PosCheck(std::string_view S, bool Fork = true) : Src(S), T(S, Fork) {}
  void cur(const nixf::LexerCursor &C) {
    if (C.offset() > Src.size()) {
      Order = false;
      return;
    }
    D |= (uint64_t)C.line() ^ T.L[C.offset()];
    D |= (uint64_t)C.column() ^ T.C[C.offset()];
  }
  void range(const nixf::LexerCursorRange &R) {
    cur(R.lCur());
    cur(R.rCur());
    if (R.lCur().offset() > R.rCur().offset())
      Order = false;
  }
  void node(const nixf::Node *N, const nixf::Node *Up, int Dep = 0,
            bool InLet = false) {
    if (!N)
      return;
    if (Dep > 400) {
      Depth = false;
      return;
    }
    range(N->range());
    // the set of bindings of a let refers to the keyword before it
    bool LetKw = InLet && N->kind() == nixf::Node::NK_Misc;
    if (Up && !LetKw && (N->lCur().offset() < Up->lCur().offset() ||
               N->rCur().offset() > Up->rCur().offset()))
      Nest = false;
    for (const nixf::Node *C : N->children())
      node(C, N, Dep + 1,
           N->kind() == nixf::Node::NK_ExprAttrs && Up &&
               Up->kind() == nixf::Node::NK_ExprLet);
  }
  void diag(const nixf::Diagnostic &X) {
    range(X.range());
    for (const auto &N : X.notes())
      range(N.range());
    for (const auto &F : X.fixes())
      for (const auto &E : F.edits())
        range(E.oldRange());
  }
};

inline size_t placeholders(const char *M) {
  size_t N = 0;
  for (; *M; M++)
    N += M[0] == '{' && M[1] == '}';
  return N;
}
