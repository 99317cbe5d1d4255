// Quick fixes: what applying one to the text makes of the program.
//   tpl: the text; what: 1 valid programs keep their meaning
//     4 edits are well formed        8 the error an edit is for goes away
//    16 the fix for the old let form
#include "dump.h"
#include "sema.h"
#include "tpl.h"
#include <algorithm>
#include <nixf/Sema/VariableLookup.h>

using namespace nixf;
using ref::RN;

namespace {

RN *copy(RN *N) {
  RN *R = ref::mk(N->K, N->B, N->E);
  R->S = N->S;
  R->V = N->V;
  for (RN *C : N->C)
    R->C.push_back(copy(C));
  return R;
}
RN *strip(RN *N) {
  while (N->K == '(')
    N = N->C[0];
  return N;
}
// Same program, up to parentheses and positions; D: difference of contents
bool same(RN *A, RN *B, uint64_t &D) {
  A = strip(A);
  B = strip(B);
  if (A->K != B->K || A->C.size() != B->C.size() || A->S.size() != B->S.size())
    return false;
  if (A->K != 'N' && A->K != 'v' && A->K != 's' && A->V != B->V)
    return false;
  for (size_t I = 0; I < A->S.size(); I++)
    D |= (unsigned char)A->S[I] ^ (unsigned char)B->S[I];
  for (size_t I = 0; I < A->C.size(); I++)
    if (!same(A->C[I], B->C[I], D))
      return false;
  return true;
}
using DK = Diagnostic;

// The program a fix for a report of kind K at [B, E) promises; null: not known
struct Promise {
  int K, B, E;
  bool Hit = false;
  void go(RN *&N) {
    switch (K) {
    case DK::DK_ExtraWith:
      if (N->K == 'W' && N->B == B) {
        N = N->C[1];
        Hit = true;
        return;
      }
      break;
    case DK::DK_ExtraRecursive:
      if (N->K == '{' && N->B == B && N->V) {
        N->V = 0;
        Hit = true;
        return;
      }
      break;
    case DK::DK_UnusedDefLet:
      if (N->K == 'L') {
        auto &L = N->C[0]->C;
        for (size_t I = 0; I < L.size(); I++)
          if (L[I]->K == '=' && L[I]->C[0]->C[0]->B == B) {
            L.erase(L.begin() + I);
            Hit = true;
            return;
          }
      }
      break;
    case DK::DK_EmptyInherit:
      if (N->K == '{')
        for (size_t I = 0; I < N->C.size(); I++)
          if (N->C[I]->K == 'n' && N->C[I]->B == B) {
            N->C.erase(N->C.begin() + I);
            Hit = true;
            return;
          }
      break;
    case DK::DK_PrimOpNeedsPrefix:
      if (N->K == '.' && N->C[0]->K == 'v' && N->C[0]->B == B) {
        // x.a: builtins.x.a
        RN *X = ref::mk('N', 0, 0);
        X->S = N->C[0]->S;
        N->C[0]->S = "builtins";
        auto &P = N->C[1]->C;
        P.insert(P.begin(), X);
        Hit = true;
        return;
      }
      if (N->K == 'v' && N->B == B) {
        RN *S = ref::mk('.', 0, 0), *V = ref::mk('v', 0, 0);
        RN *P = ref::mk('a', 0, 0), *X = ref::mk('N', 0, 0);
        V->S = "builtins";
        X->S = N->S;
        P->add(X);
        S->add(V)->add(P);
        N = S;
        Hit = true;
        return;
      }
      break;
    case DK::DK_PrimOpRemovablePrefix:
      if (N->K == '.' && N->B == B) {
        RN *V = ref::mk('v', 0, 0);
        V->S = N->C[1]->C[0]->S;
        N = V;
        Hit = true;
        return;
      }
      if (N->K == 'n')
        for (size_t I = N->V ? 1 : 0; I < N->C.size(); I++)
          if (N->C[I]->B == B && N->C[I]->E == E) {
            N->C.erase(N->C.begin() + I);
            Hit = true;
            return;
          }
      break;
    case DK::DK_RedundantParen:
    case DK::DK_DeprecatedURL:
      Hit = true; // the same program
      return;
    }
    for (RN *&C : N->C) {
      go(C);
      if (Hit)
        return;
    }
  }
};

bool apply(std::string_view Src, const Fix &F, std::string &Out) {
  std::vector<const TextEdit *> Es;
  for (const TextEdit &E : F.edits())
    Es.push_back(&E);
  std::stable_sort(Es.begin(), Es.end(),
                   [](const TextEdit *A, const TextEdit *B) {
                     return A->oldRange().lCur().offset() <
                            B->oldRange().lCur().offset();
                   });
  size_t At = 0;
  for (const TextEdit *E : Es) {
    size_t B = E->oldRange().lCur().offset(), X = E->oldRange().rCur().offset();
    if (B < At || X < B || X > Src.size())
      return false;
    Out.append(Src.substr(At, B - At));
    Out.append(E->newText());
    At = X;
  }
  Out.append(Src.substr(At));
  return true;
}
// Where the text at Pos is after the edits
size_t mapPos(const Fix &F, size_t Pos) {
  size_t R = Pos;
  for (const TextEdit &E : F.edits()) {
    size_t B = E.oldRange().lCur().offset(), X = E.oldRange().rCur().offset();
    if (X <= Pos && !(B == X && B == Pos))
      R += E.newText().size() - (X - B);
    else if (B < Pos && Pos < X)
      R -= Pos - B;
  }
  return R;
}
bool alike(const Diagnostic &A, const Diagnostic &B) {
  if (A.kind() != B.kind() || A.args().size() != B.args().size())
    return false;
  for (size_t I = 0; I < A.args().size(); I++)
    if (A.args()[I] != B.args()[I])
      return false;
  return true;
}
bool isWord(char C) {
  return (C >= 'a' && C <= 'z') | (C >= 'A' && C <= 'Z') |
         (C >= '0' && C <= '9') | (C == '_') | (C == '-') | (C == '\'');
}

// The fix for the old let form, let { ... body = e; }: the text it must yield is
// built beside the text it is applied to.
void oldLet() {
  static const char *const Ws[] = {"", " ", "/**/"};
  static const char *const Vs[] = {"1", "x", "x: x", "{ x = 1; }", "(x)",
                                   "\"s\"", "let y = 2; in x"};
  static const char *const Bs[] = {"x = 1;", "x = 1; y.z = x;", "\"x\"=2;",
                                   "inherit x;", "body.z=2;", "${x}=1;"};
  static const char *const Ps[] = {"", "(", "x:", "if "};
  static const char *const Ss[] = {"", ")", "", "then 1 else 2"};
  std::string O, W;
  auto both = [&](std::string_view V) { O += V, W += V; };
  unsigned P = choose(4);
  both(Ps[P]);
  both("let");
  both(Ws[choose(3)]);
  O += "{", W += " ";
  int Other = -1;
  if (choose(2)) {
    Other = choose(6);
    both(Bs[Other]);
    both(Ws[choose(3)]);
  }
  const char *V = Vs[choose(7)];
  if (choose(2)) {
    O += "\"body\"=", O += V, O += ";";
  } else {
    O += "body = ", O += V, O += ";";
  }
  both(Ws[choose(3)]);
  if (Other < 0 && choose(2)) {
    Other = choose(6);
    both(Bs[Other]);
    both(Ws[choose(3)]);
  }
  O += "}", W += " in ", W += V;
  both(P == 3 && choose(2) ? " " : "");
  both(Ss[P]);
  if (P == 3)
    W.replace(W.rfind("then 1"), 6, " then 1");
  Text T;
  T.s(O);
  std::string_view Src = T.fin();
  std::vector<Diagnostic> D;
  auto A = parse(Src, D);
  if (ref::anyError(D))
    return;
  for (const Diagnostic &X : D)
    if (X.kind() == DK::DK_DeprecatedLet)
      for (const Fix &F : X.fixes()) {
        symx_reach("old-let-fix");
        std::string Out;
        CHECK(apply(Src, F, Out), "edits", "the edits of a fix overlap");
        CHECK(Other != 4, "old-let", "the fix drops a part of the body");
        ref::Ref R1(W), R2(Out);
        RN *E1 = R1.parse(), *E2 = R2.parse();
        if (R1.Bad || R1.Unspec)
          continue; // dynamic names are not allowed in either form
        CHECK(!R2.Bad, "old-let", "the fix yields no program");
        uint64_t Df = 0;
        CHECK(!R2.Bad && same(E1, E2, Df) && Df == 0, "old-let",
              "the fix yields another program");
      }
}

} // namespace

extern "C" void symx_harness() {
  if (symx_param("what", 7) == 16)
    return oldLet();
  Tpl T;
  std::string_view Src = T.make(symx_param_str("tpl", "``"));
  int What = symx_param("what", 7);
  std::vector<Diagnostic> D;
  auto A = parse(Src, D);
  bool Err = ref::anyError(D);
  symx_digest_u64(D.size());
  if (A && !Err) {
    VariableLookupAnalysis V(D);
    V.runOnAST(*A);
  }
  RN *E = nullptr;
  if ((What & 1) && !Err) {
    ref::Ref R(Src);
    E = R.parse();
    if (R.Unspec || R.Bad)
      symx_stop();
  }
  for (const Diagnostic &X : D)
    for (const Fix &F : X.fixes()) {
      std::string Out;
      bool Ok = apply(Src, F, Out);
      symx_reach("fix");
      if (What & 4)
        CHECK(Ok, "edits", "the edits of a fix overlap or leave the text");
      if (!Ok)
        continue;
      char *P = (char *)symx_malloc(Out.size());
      for (size_t I = 0; I < Out.size(); I++)
        P[I] = Out[I];
      std::string_view New(P, Out.size());
      symx_digest_u64(New.size());
      if ((What & 1) && !Err && X.kind() != DK::DK_DeprecatedLet) {
        symx_reach("fix-in-program");
        Promise Pr{(int)X.kind(), (int)X.range().lCur().offset(),
                   (int)X.range().rCur().offset()};
        RN *W = copy(E);
        Pr.go(W);
        if (!Pr.Hit) {
          if (symx_param("dbg", 0))
            CHECK(false, "unknown", X.sname());
          continue;
        }
        ref::Ref R2(New);
        RN *N = R2.parse();
        CHECK(!R2.Bad, "invalid", X.sname());
        if (R2.Bad)
          continue;
        uint64_t Df = 0;
        CHECK(same(W, N, Df), "program", X.sname());
        CHECK(Df == 0, "program", X.sname());
      }
      if ((What & 8) && X.kind() == DK::DK_Expected && X.args().size() == 1 &&
          (X.args()[0] == "then" || X.args()[0] == "else" ||
           X.args()[0] == "in")) {
        // an inserted keyword stays a word of its own
        symx_reach("keyword-fix");
        const std::string &K = X.args()[0];
        size_t At = X.range().lCur().offset();
        size_t P0 = New.substr(At).find(K);
        CHECK(P0 != std::string_view::npos, "keyword", K.c_str());
        if (P0 == std::string_view::npos)
          continue;
        P0 += At;
        bool W = false;
        if (P0)
          W |= isWord(New[P0 - 1]);
        if (P0 + K.size() < New.size())
          W |= isWord(New[P0 + K.size()]);
        CHECK(!W, "keyword", K.c_str());
      }
      if ((What & 8) && ref::isError(X)) {
        symx_reach("error-fix");
        std::vector<Diagnostic> D2;
        auto A2 = parse(New, D2);
        size_t At = mapPos(F, X.range().lCur().offset());
        size_t To = mapPos(F, X.range().rCur().offset());
        int Was = 0, Is = 0;
        for (const Diagnostic &Y : D)
          Was += alike(X, Y) && mapPos(F, Y.range().lCur().offset()) == At &&
                 mapPos(F, Y.range().rCur().offset()) == To;
        for (const Diagnostic &Y : D2)
          Is += alike(X, Y) && (size_t)Y.range().lCur().offset() == At &&
                (size_t)Y.range().rCur().offset() == To;
        CHECK(Is < Was, "gone", F.message().c_str());
      }
    }
}
