// Names through the request handlers, at every position of the text.
//   tpl: the text
//   what: 1 definition, references, highlights  2 rename
//         4 any text: one answer each, positions in the text
#include "ctl.h"
#include "edits.h"
#include "canon.h"
#include "dump.h"
#include "tpl.h"
#include <algorithm>
#include <set>

using namespace lspserver;
using nixd::Controller;
using ref::RN;

namespace {

struct R2 {
  long B = -1, E = -1;
  bool operator<(const R2 &O) const {
    return B != O.B ? B < O.B : E < O.E;
  }
  bool operator==(const R2 &O) const { return B == O.B && E == O.E; }
};

struct In {
  std::string_view Src;
  R2 range(const Range &R) {
    R2 X{offset(Src, R.start), offset(Src, R.end)};
    CHECK(X.B >= 0 && X.B <= X.E, "range", "a range that is not in the text");
    return X;
  }
};

Range rangeOf(const llvm::json::Object *O) {
  Range R;
  auto Pos = [&](const char *K, Position &P) {
    if (auto *X = O ? O->getObject(K) : nullptr) {
      P.line = (int)X->getInteger("line").value_or(-1);
      P.character = (int)X->getInteger("character").value_or(-1);
    }
  };
  R.start = R.end = {-1, -1};
  Pos("start", R.start);
  Pos("end", R.end);
  return R;
}

// the places a definition request answers
std::vector<R2> places(In &T, const llvm::json::Value &J) {
  std::vector<R2> L;
  auto One = [&](const llvm::json::Object *O) {
    if (!O)
      return;
    if (O->getString("uri").value_or("") != "file:///d/f.nix") {
      L.push_back({});
      return;
    }
    L.push_back(T.range(rangeOf(O->getObject("range"))));
  };
  if (auto *A = J.getAsArray())
    for (const auto &X : *A)
      One(X.getAsObject());
  else
    One(J.getAsObject());
  return L;
}

template <class V> std::vector<R2> sorted(V L) {
  std::sort(L.begin(), L.end());
  return L;
}

struct Token {
  R2 At;
  const ref::Occ *O = nullptr; // a use
  ref::SDef *D = nullptr;      // a definition
  ref::SEnv *W = nullptr;      // a with
};

Position posOf(std::string_view S, long Off) {
  Position P{0, 0};
  for (long I = 0; I < Off; I++) {
    unsigned char B = S[I];
    if (B == '\n') {
      P.line++;
      P.character = 0;
    } else if (B < 0x80 || B >= 0xC0)
      P.character += B >= 0xF0 ? 2 : 1;
  }
  return P;
}

bool blank(std::string_view S, long I) {
  return I < 0 || I >= (long)S.size() || S[I] == ' ' || S[I] == '\n';
}

struct Answers {
  bool Def, Refs, High, Prep, Ren;
  std::vector<R2> D, R;
  std::vector<std::pair<R2, DocumentHighlightKind>> H;
  std::optional<R2> P;
  std::vector<TextEdit> E;
};

} // namespace

extern "C" void symx_harness() {
  Tpl T;
  T.Hi = symx_param("hi", 0x7F);
  std::string_view Src = T.make(symx_param_str("tpl", "let a=1;in a"));
  int What = symx_param("what", 1);
  bool Valid = What & 3;
  ref::Prog *Before = nullptr;
  ref::Scope *Sc = nullptr;
  if (Valid) {
    Before = new ref::Prog(Src);
    if (!Before->Ok)
      symx_stop();
    Sc = new ref::Scope(Before->S);
    Sc->run(Before->Root);
    if (Sc->OldLet)
      symx_stop();
    std::vector<nixf::Diagnostic> Ds;
    auto A = nixf::parse(Src, Ds);
    if (!A || ref::anyError(Ds))
      symx_stop();
  }
  Ctl K;
  K.open(Src);
  symx_reach("program");
  In X{Src};

  std::vector<Token> Ts;
  if (Valid) {
    for (const ref::Occ &O : Sc->Occs)
      Ts.push_back({{O.B, O.E}, &O});
    for (ref::SDef *D : Sc->Defs) {
      bool Use = false; // inherit a: the name stands for the use
      for (Token &Y : Ts)
        Use |= Y.O && Y.At == R2{D->Key->B, D->Key->E};
      if (!Use)
        Ts.push_back({{D->Key->B, D->Key->E}, nullptr, D});
    }
    for (ref::SEnv *W : Sc->WithEnvs)
      Ts.push_back({{W->With->B, W->With->B + 4}, nullptr, nullptr, W});
  }
  auto Uses = [&](ref::SDef *D) {
    std::vector<R2> L;
    for (const ref::Occ &O : Sc->Occs)
      if (O.K == 'd' && O.D == D)
        L.push_back({O.B, O.E});
    return sorted(L);
  };
  auto WithUses = [&](ref::SEnv *W) {
    std::vector<R2> L;
    for (const ref::Occ &O : Sc->Occs)
      if (O.K == 'w' &&
          std::find(O.Withs.begin(), O.Withs.end(), W) != O.Withs.end())
        L.push_back({O.B, O.E});
    return sorted(L);
  };

  TextDocumentPositionParams P;
  P.textDocument.uri = Ctl::uri();
  for (long I = 0; I <= (long)Src.size(); I++) {
    if (I < (long)Src.size() && ((unsigned char)Src[I] & 0xC0) == 0x80)
      continue;
    P.position = posOf(Src, I);
    Answers A;
    bool F;
    llvm::json::Value J = nullptr;
    std::vector<Location> L;
    std::vector<DocumentHighlight> H;
    std::optional<Range> PR;
    WorkspaceEdit W;
    if (What & 5) {
      A.Def = ask(K.C, &Controller::onDefinition, P, J, F);
      A.D = places(X, J);
      A.Refs = ask(K.C, &Controller::onReferences, P, L, F);
      for (Location &Y : L) {
        CHECK(Y.uri.uri() == "file:///d/f.nix", "document",
              "a reference in another document");
        A.R.push_back(X.range(Y.range));
      }
      A.R = sorted(A.R);
      A.High = ask(K.C, &Controller::onDocumentHighlight, P, H, F);
      for (DocumentHighlight &Y : H)
        A.H.push_back({X.range(Y.range), Y.kind});
    }
    RenameParams RP;
    RP.textDocument = P.textDocument;
    RP.position = P.position;
    RP.newName = "zz";
    if (What & 6) {
      A.Prep = ask(K.C, &Controller::onPrepareRename, P, PR, F) && PR;
      if (PR)
        A.P = X.range(*PR);
      A.Ren = ask(K.C, &Controller::onRename, RP, W, F) && W.changes;
      if (W.changes)
        for (auto &[U, Es] : *W.changes) {
          CHECK(U == "file:///d/f.nix", "document",
                "an edit in another document");
          A.E.insert(A.E.end(), Es.begin(), Es.end());
        }
      A.Ren &= !A.E.empty();
      CHECK(A.Ren == A.Prep, "prepare", "rename and prepareRename differ");
      if (A.Ren) {
        symx_reach("rename");
        CHECK(A.P && A.P->B <= I && I <= A.P->E, "prepare",
              "the range to rename is elsewhere");
      }
    }
    if (!Valid) {
      std::string Out;
      if (!A.E.empty())
        CHECK(apply(Src, A.E, Out), "edits", "the edits overlap");
      continue;
    }

    // what the position may be about
    std::vector<Token *> Near;
    bool Exact = false;
    for (Token &Y : Ts)
      if (Y.At.B <= I && I <= Y.At.E) {
        Near.push_back(&Y);
        Exact |= (Y.At.B < I || blank(Src, I - 1)) &&
                 (I < Y.At.E || blank(Src, I));
      }
    auto Fits = [&](Token &Y) {
      ref::SDef *D = Y.D ? Y.D : Y.O && Y.O->K == 'd' ? Y.O->D : nullptr;
      if (D) {
        std::vector<R2> U = Uses(D);
        if (Y.O && D->Key) {
          symx_reach("used-name");
          if (A.D.size() != 1 || !(A.D[0] == R2{D->Key->B, D->Key->E}))
            return "definition: a name leads to another place";
        }
        if (!D->Key && !A.D.empty())
          return "definition: a builtin is defined in the text";
        if (!A.Refs || !(A.R == U))
          return "references: the uses differ";
        std::vector<R2> R, Wr, Key;
        for (auto &Z : A.H)
          (Z.second == DocumentHighlightKind::Write ? Wr : R).push_back(Z.first);
        if (D->Key)
          Key.push_back({D->Key->B, D->Key->E});
        if (!(sorted(R) == U) || !(Wr == Key))
          return "highlight: the marks differ";
        return "";
      }
      if (Y.O && Y.O->K == 'w') {
        symx_reach("with-name");
        for (ref::SEnv *V : Y.O->Withs)
          if (A.D.size() == 1 && A.D[0] == R2{V->With->B, V->With->B + 4} &&
              A.Refs && A.R == WithUses(V))
            return "";
        return "with: a name from a with leads elsewhere";
      }
      if (Y.O) {
        symx_reach("undefined-name");
        if (!A.D.empty() || !A.R.empty() || !A.H.empty())
          return "undefined: a name not in scope leads somewhere";
        return "";
      }
      if (!(A.R == WithUses(Y.W)))
        return "with: the uses of a with differ";
      return "";
    };
    if (What & 1) {
      const char *Why = "";
      bool Ok = false;
      for (Token *Y : Near) {
        Why = Fits(*Y);
        Ok |= !*Why;
      }
      if (!Exact)
        Ok |= A.R.empty() && A.H.empty();
      if (Near.empty()) {
        symx_reach("no-name");
        Why = "elsewhere: names are found where there is none";
      }
      CHECK(Ok, "names", Why);
    }
    if (What & 2) {
      // which name was renamed: the one its range covers
      Token *Y = nullptr;
      if (A.P)
        for (Token *Z : Near)
          if (Z->At.B <= A.P->B && A.P->E <= Z->At.E)
            Y = Z;
      ref::SDef *D = !Y        ? nullptr
                     : Y->D    ? Y->D
                     : Y->O && Y->O->K == 'd' ? Y->O->D
                                              : nullptr;
      bool Local = D && D->Key;
      if (A.Ren) {
        CHECK(Local, "rename", "something that is no local name is renamed");
        if (!Local)
          continue;
        std::string Out;
        bool Ok = apply(Src, A.E, Out);
        CHECK(Ok, "edits", "the edits overlap");
        if (!Ok)
          continue;
        ref::Prog After(keep(Out));
        CHECK(After.Ok, "rename", "renaming makes no program");
        if (!After.Ok)
          continue;
        ref::Canon C;
        if (D->Src != 'l') {
          C.RenKey = D->Key;
          C.RenNew = "zz";
        }
        CHECK(C.same(*Before, After), "rename",
              "renaming changes what a name stands for");
        ref::Scope As(After.S);
        As.run(After.Root);
        size_t N = 0, M = 0;
        for (ref::Occ &O : As.Occs)
          N += sameBytes(O.Name, "zz");
        for (const ref::Occ &O : Sc->Occs)
          M += O.K == 'd' && O.D == D;
        CHECK(N >= M, "rename", "not every use has the new name");
      } else if (Exact) {
        for (Token *Z : Near)
          CHECK(!(Z->D || (Z->O && Z->O->K == 'd' && Z->O->D->Key)), "rename",
                "a local name cannot be renamed");
      }
    }
  }
}
