// Positions: offset <-> (line, UTF-16 column).
//   what: 1 every valid text of n characters   2 any n bytes
#include "lsp.h"
#include "utf.h"
#include <lspserver/SourceCode.h>

using namespace lspserver;

static bool toOff(llvm::StringRef S, int64_t L, int64_t C, bool Allow,
                  size_t &Off) {
  Position P;
  P.line = L;
  P.character = C;
  auto R = positionToOffset(S, P, Allow);
  if (R) {
    Off = *R;
    return true;
  }
  llvm::consumeError(R.takeError());
  return false;
}

static void valid() {
  UText T;
  T.add(symx_param("n", 3));
  std::string_view V = T.fin();
  llvm::StringRef S(V.data(), V.size());
  size_t N = T.C.size(), O;
  bool To = true, Back = true, Len = true;
  for (size_t I = 0; I <= N; I++) {
    auto A = T.at(I);
    Position P = offsetToPosition(S, A.Off);
    To &= P.line == A.Line && P.character == A.Col;
    Back &= toOff(S, A.Line, A.Col, false, O) && O == A.Off;
    size_t U = 0;
    for (size_t K = 0; K < I; K++)
      U += T.C[K].Units;
    Len &= lspLength(S.substr(0, A.Off)) == U;
    symx_digest_u64(P.line * 100 + P.character);
  }
  Position E = offsetToPosition(S, S.size() + 1 + choose(2));
  auto AE = T.at(N);
  CHECK(To, "offset-to-position",
        "an offset is not reported at its line and UTF-16 column");
  CHECK(E.line == AE.Line && E.character == AE.Col, "offset-to-position",
        "an offset past the end is not reported at the end");
  CHECK(Back, "position-to-offset",
        "the position of a character does not lead back to its offset");
  CHECK(Len, "length", "length is not the number of UTF-16 code units");
  bool Strict = true, Clamp = true, NoLine = true;
  static const int64_t Huge[] = {0x7fffffff, 0x80000000ll, 0xffffffffll,
                                 0x100000001ll};
  for (int L = 0; L <= AE.Line + 1; L++)
    for (int C = 0; C <= (int)(2 * N + 5); C++) {
      int64_t Col = C <= (int)(2 * N + 1) ? C : Huge[C - (2 * N + 2)];
      auto X = T.locate(L, Col > 1000 ? 1000 : (int)Col);
      bool S1 = toOff(S, L, Col, false, O);
      Strict &= S1 == (X.Line && X.Exact) && (!S1 || O == X.Off);
      bool S2 = toOff(S, L, Col, true, O);
      NoLine &= S2 == X.Line;
      Clamp &= !S2 || O == X.Off;
    }
  NoLine &= !toOff(S, -1, 0, true, O) && !toOff(S, 0, -1, true, O) &&
            !toOff(S, 0x7fffffff, 0, true, O);
  CHECK(Strict, "strict", "strict conversion accepts a position that does not "
                          "exist, rejects one that does, or misplaces it");
  CHECK(NoLine, "line-range", "a line out of range is accepted, or a line in "
                              "range is not");
  CHECK(Clamp, "clamp", "a column past the end of the line does not lead to "
                        "the end of the line");
  symx_reach("valid-text");
}

static void any() {
  Text T;
  int N = symx_param("n", 3);
  for (int I = 0; I < N; I++)
    T.b();
  std::string_view V = T.fin();
  llvm::StringRef S(V.data(), V.size());
  for (size_t I = 0; I <= V.size(); I++) {
    Position P = offsetToPosition(S, I);
    int64_t L = 0;
    size_t SOL = 0;
    for (size_t K = 0; K < I; K++)
      if (V[K] == '\n')
        L++, SOL = K + 1;
    CHECK(P.line == L, "line", "wrong line in a text that is not valid UTF-8");
    CHECK(P.character >= 0 && P.character <= (int64_t)(2 * (I - SOL)), "column",
          "column out of range in a text that is not valid UTF-8");
    if (I == SOL)
      CHECK(P.character == 0, "column", "start of a line is not column 0");
    size_t O;
    bool R = toOff(S, L, P.character, true, O);
    CHECK(R && O >= SOL && O <= V.size(), "in-range",
          "offset out of the line in a text that is not valid UTF-8");
    for (size_t K = SOL; K < O; K++)
      CHECK(V[K] != '\n', "in-line", "offset past the end of its line");
  }
  for (int C = 0; C <= N + 1; C++) {
    size_t O;
    if (toOff(S, 0, C, true, O))
      CHECK(O <= V.size(), "in-range", "offset past the end of the text");
    if (toOff(S, 0, C, false, O))
      CHECK(O <= V.size(), "in-range", "offset past the end of the text");
  }
  symx_reach("any-bytes");
}

extern "C" void symx_harness() {
  if (symx_param("what", 1) == 1)
    valid();
  else
    any();
}
