// What the editor shows about a text: semantic tokens, the outline, foldings,
// links.
//   tpl: the text
//   what: 1 tokens  2 outline  4 foldings  8 links
//   any: 1 also texts that are no programs (only that answers are well-formed)
#include "ctl.h"
#include "canon.h"
#include "dump.h"
#include "edits.h"
#include "tpl.h"
#include <algorithm>
#include <map>
#include <set>

using namespace lspserver;
using nixd::Controller;
using ref::RN;

namespace {

using Pos2 = std::pair<long, long>;

Pos2 posOf(std::string_view S, long Off) {
  Pos2 P{0, 0};
  for (long I = 0; I < Off; I++) {
    unsigned char B = S[I];
    if (B == '\n') {
      P.first++;
      P.second = 0;
    } else if (B < 0x80 || B >= 0xC0)
      P.second += B >= 0xF0 ? 2 : 1;
  }
  return P;
}
Range rangeOf(std::string_view S, long B, long E) {
  Pos2 X = posOf(S, B), Y = posOf(S, E);
  return {{(int)X.first, (int)X.second}, {(int)Y.first, (int)Y.second}};
}
bool inText(std::string_view S, const Range &R) {
  return !(R.end < R.start) && offset(S, R.start) >= 0 &&
         offset(S, R.end) >= 0;
}
bool inside(const Range &A, const Range &B) { // A in B
  return !(A.start < B.start) && !(B.end < A.end);
}

// What is in the tree: the walk goes where a program has expressions. Must:
// what is found there has to be shown, elsewhere it may be.
struct Item {
  RN *N;
  char K;          // kind of the node, "N" for the name of an attribute,
                   // "." for a name of a selection, "A" argument, "F" formal
  bool Must;
  ref::Attr *A = nullptr;
  int Up = -1;     // the item around it
  const ref::Occ *O = nullptr;
};

struct Walk {
  ref::Sema &S;
  ref::Scope &Sc;
  std::vector<Item> L;
  std::set<RN *> Seen;

  int put(RN *N, char K, bool Must, int Up) {
    Item I{N, K, Must};
    I.Up = Up;
    if (K == 'v' || K == 'n')
      for (const ref::Occ &O : Sc.Occs)
        if (O.B == N->B && O.E == N->E)
          I.O = &O;
    L.push_back(I);
    return (int)L.size() - 1;
  }
  void name(RN *N, int Up) { // what is in a name
    for (RN *C : N->C)
      if (C->K != 's')
        walk(C, false, Up);
      else
        for (RN *D : C->C)
          if (D->K == '$')
            walk(D->C[0], false, Up);
  }
  void set(ref::AttrSet *A, bool Must, int Up) {
    for (auto *X : {&A->Static, &A->Dynamic})
      for (ref::Attr &Y : *X) {
        bool Dyn = X == &A->Dynamic;
        int I = put(Y.Key, Dyn ? 'D' : Y.Kind == '=' ? 'N' : 'n', Must, Up);
        L[I].A = &Y;
        name(Y.Key, I);
        if (Y.Kind != '=') {
          if (Y.Src && Seen.insert(Y.Src).second)
            walk(Y.Src, false, I);
          continue;
        }
        if (Y.Set) {
          if (Y.Value)
            put(Y.Value, '{', Must, I);
          set(Y.Set, Must, I);
        } else
          walk(Y.Value, Must, I);
      }
  }
  void walk(RN *N, bool Must, int Up) {
    switch (N->K) {
    case '{':
      put(N, '{', Must, Up);
      set(S.Sets[N], Must, Up);
      return;
    case 'L':
      put(N, 'L', Must, Up);
      set(S.Sets[N->C[0]], Must, Up);
      walk(N->C[1], Must, Up);
      return;
    case '\\': {
      int I = put(N, '\\', Must, Up);
      for (size_t K = 0; K + 1 < N->C.size(); K++) {
        RN *C = N->C[K];
        if (C->K != 'F') {
          put(C, 'A', Must, I);
          continue;
        }
        for (RN *O : C->C)
          if (!O->V) {
            put(O->C[0], 'F', Must, I);
            if (O->C.size() > 1)
              walk(O->C[1], false, I);
          }
      }
      walk(N->C.back(), Must, I);
      return;
    }
    case 's':
    case 'p': {
      int I = put(N, N->K, Must, Up);
      for (RN *C : N->C)
        if (C->K == '$')
          walk(C->C[0], false, I);
      return;
    }
    case '.':
      walk(N->C[0], Must, Up);
      path(N->C[1], Must, Up);
      for (size_t I = 2; I < N->C.size(); I++)
        walk(N->C[I], Must, Up);
      return;
    case '?':
      walk(N->C[0], Must, Up);
      path(N->C[1], false, Up);
      return;
    case '[': {
      int I = put(N, '[', Must, Up);
      for (RN *C : N->C)
        walk(C, Must, I);
      return;
    }
    case 'v':
    case 'i':
    case 'f':
    case 'W':
    case 'I':
      put(N, N->K, Must, Up);
    default:
      for (RN *C : N->C)
        walk(C, Must, Up);
    }
  }
  void path(RN *P, bool Must, int Up) {
    for (RN *C : P->C) {
      put(C, '.', Must && C->C.empty(), Up);
      for (RN *D : C->C) // a string, or dynamic
        walk(D->K == '$' ? D->C[0] : D, false, Up);
    }
  }
};

bool literal(RN *N) {
  return N->C.empty() || (N->C.size() == 1 && N->C[0]->K == '"');
}
std::string text(RN *N) {
  return N->C.empty() ? "" : N->C[0]->S;
}
bool one(const std::string &A, const char *B) { return sameBytes(A, B); }

struct View {
  std::string_view Src;
  ref::Prog *P = nullptr;
  ref::Scope *Sc = nullptr;
  Walk *Ws = nullptr;
  Ctl K;

  Range at(RN *N) { return rangeOf(Src, N->B, N->E); }

  // --------------------------------------------------------------- tokens
  // type and modifiers of a name; -1: no demand
  static Pos2 kind(const ref::Occ *O) {
    if (!O)
      return {-1, 0};
    bool Named = one(O->Name, "true") || one(O->Name, "false");
    if (Named || one(O->Name, "null")) {
      if (O->K != 'd' || O->D->Key)
        return {-1, 0};
      return Named ? Pos2{9, 1} : Pos2{8, 0};
    }
    if (O->K == 'd')
      return O->D->Key ? Pos2{5, 0} : Pos2{4, 1};
    return O->K == 'w' ? Pos2{6, 4} : Pos2{5, 2};
  }
  void tokens() {
    SemanticTokensParams Q;
    Q.textDocument.uri = Ctl::uri();
    SemanticTokens R;
    bool F;
    bool Ok = ask(K.C, &Controller::onSemanticTokens, Q, R, F);
    if (!Ok)
      return CHECK(!P, "tokens", "no semantic tokens");
    // as they are sent
    llvm::json::Value J = toJSON(R);
    auto *A = J.getAsObject()->getArray("data");
    CHECK(A && A->size() % 5 == 0, "tokens", "not five numbers each");
    std::map<Pos2, std::pair<long, Pos2>> At;
    Pos2 Cur{0, 0}, End{0, 0};
    for (size_t I = 0; A && I + 4 < A->size(); I += 5) {
      long D[5];
      for (int X = 0; X < 5; X++) {
        D[X] = (*A)[I + X].getAsInteger().value_or(-1);
        CHECK(D[X] >= 0 && D[X] < 100000, "tokens", "a number out of range");
      }
      if (D[0])
        Cur = {Cur.first + D[0], D[1]};
      else
        Cur.second += D[1];
      CHECK(!(Cur < End), "tokens", "tokens overlap");
      End = {Cur.first, Cur.second + D[2]};
      CHECK(D[2] > 0, "tokens", "an empty token");
      CHECK(inText(Src, {{(int)Cur.first, (int)Cur.second},
                         {(int)End.first, (int)End.second}}),
            "tokens", "a token that is not in a line of the text");
      CHECK(D[3] < 13 && D[4] < 8, "tokens", "a token of no known type");
      At[Cur] = {D[2], {D[3], D[4]}};
    }
    symx_reach("tokens");
    if (!P)
      return;
    size_t Known = 0;
    for (Item &I : Ws->L) {
      Pos2 T;
      bool Must = I.Must;
      switch (I.K) {
      case 'v':
        T = kind(I.O);
        break;
      case 'n': // a name that is inherited: as attribute, or as use
        T = kind(I.O);
        Must = false;
        break;
      case 's':
        if (!literal(I.N))
          continue;
        T = {1, 0};
        break;
      case 'N':
        T = {10, 0};
        break;
      case '.':
        if (!I.N->C.empty())
          continue;
        T = {3, 0};
        break;
      case 'A':
        T = {11, 0};
        break;
      case 'F':
        T = {12, 0};
        break;
      default:
        continue;
      }
      Range R = at(I.N);
      if (R.start.line != R.end.line)
        continue;
      auto It = At.find({R.start.line, R.start.character});
      if (It == At.end()) {
        CHECK(!Must, "missing", "a name or literal has no token");
        continue;
      }
      Known++;
      CHECK(It->second.first == R.end.character - R.start.character, "length",
            "a token is longer or shorter than what it is for");
      if (I.K == 'n' && It->second.second == Pos2{10, 0})
        continue;
      if (T.first >= 0)
        CHECK(It->second.second == T, "type", "a token of another type");
    }
    CHECK(Known >= At.size(), "tokens", "tokens where there is none");
  }

  // --------------------------------------------------------------- outline
  struct Sym {
    DocumentSymbol *S;
    int Up;
    bool Found = false;
  };
  std::vector<Sym> Syms;
  void flat(std::vector<DocumentSymbol> &L, int Up) {
    for (DocumentSymbol &S : L) {
      CHECK(inText(Src, S.range) && inText(Src, S.selectionRange), "range",
            "a symbol that is not in the text");
      CHECK(inside(S.selectionRange, S.range), "range",
            "the selection of a symbol is not in it");
      size_t I = S.name.find_first_not_of(" \t\r\n");
      CHECK(I != std::string::npos, "name", "a symbol without a name");
      Syms.push_back({&S, Up});
      flat(S.children, (int)Syms.size() - 1);
    }
  }
  void outline() {
    DocumentSymbolParams Q;
    Q.textDocument.uri = Ctl::uri();
    std::vector<DocumentSymbol> R;
    bool F;
    bool Ok = ask(K.C, &Controller::onDocumentSymbol, Q, R, F);
    if (!Ok)
      return CHECK(!P, "outline", "no outline");
    Syms.reserve(256);
    flat(R, -1);
    symx_reach("outline");
    if (!P)
      return;
    std::vector<int> Of(Ws->L.size(), -1); // symbol of an item
    for (size_t I = 0; I < Ws->L.size(); I++) {
      Item &X = Ws->L[I];
      bool Dep = false;
      SymbolKind Kd;
      std::string Name;
      Range Sel = at(X.N), All = Sel;
      bool Exact = true;
      bool Must = X.Must;
      switch (X.K) {
      case 'v': {
        if (!X.O)
          continue;
        const ref::Occ &O = *X.O;
        Name = O.Name;
        if (one(Name, "true") || one(Name, "false"))
          Kd = SymbolKind::Boolean;
        else if (one(Name, "null"))
          Kd = SymbolKind::Null;
        else if (O.K == 'd')
          Kd = O.D->Key ? SymbolKind::Constant : SymbolKind::Event;
        else
          Kd = SymbolKind::Variable;
        Dep = O.K != 'd' && O.K != 'w' && Kd == SymbolKind::Variable;
        break;
      }
      case 's':
        Kd = SymbolKind::String;
        Name = literal(X.N) ? text(X.N) : "";
        if (X.N->V) // indentation: not here
          Name = "";
        break;
      case 'i':
        Kd = SymbolKind::Number;
        Name = std::string(Src.substr(X.N->B, X.N->E - X.N->B));
        break;
      case 'f':
        Kd = SymbolKind::Number;
        break;
      case '.':
        Kd = SymbolKind::Property;
        Name = X.N->C.empty() ? X.N->S : "";
        break;
      case '[':
        Kd = SymbolKind::Array;
        break;
      case '\\': {
        Kd = SymbolKind::Function;
        RN *Arg = nullptr, *Fs = nullptr;
        for (size_t K = 0; K + 1 < X.N->C.size(); K++)
          (X.N->C[K]->K == 'F' ? Fs : Arg) = X.N->C[K];
        if (Arg) {
          Name = Arg->S;
          Sel = at(Arg);
        } else
          Sel = at(Fs);
        break;
      }
      case 'N':
      case 'n':
        Kd = SymbolKind::Field;
        Name = X.A->Name;
        Exact = X.K == 'N' && !X.A->Set;
        if (Exact)
          All.end = at(X.A->Value).end;
        break;
      case 'D':
        Kd = SymbolKind::Field;
        Exact = !X.A->Set;
        if (Exact)
          All.end = at(X.A->Value).end;
        break;
      default:
        continue;
      }
      int Best = -1;
      for (size_t J = 0; J < Syms.size(); J++) {
        Sym &Y = Syms[J];
        if (!Y.Found && Y.S->kind == Kd && Y.S->selectionRange == Sel)
          Best = (int)J;
      }
      if (Best < 0) {
        CHECK(!Must, "missing", "something of the program is not shown");
        continue;
      }
      Sym &Y = Syms[Best];
      Y.Found = true;
      Of[I] = Best;
      CHECK(!Exact || Y.S->range == All, "range",
            "the range of a symbol is not that of what it is for");
      if (Name.find_first_not_of(" \t\r\n") != std::string::npos)
        CHECK(sameBytes(Y.S->name, Name), "name", "a symbol has another name");
      CHECK(Y.S->deprecated == Dep, "name",
            "undefined names are marked, and no others");
      // under what is around it
      int Up = X.Up;
      while (Up >= 0 && Of[Up] < 0)
        Up = Ws->L[Up].Up;
      if (X.Must)
        CHECK(Y.Up == (Up < 0 ? -1 : Of[Up]), "nesting",
              "a symbol is not under what it is in");
    }
    for (Sym &Y : Syms) {
      // an inherited name has a value under it
      bool Inh = false;
      for (size_t I = 0; I < Ws->L.size(); I++)
        if (Ws->L[I].K == 'n' && Of[I] >= 0)
          for (int U = Y.Up; U >= 0; U = Syms[U].Up)
            Inh |= U == Of[I];
      CHECK(Y.Found || Inh, "other", "a symbol for nothing in the program");
    }
  }

  // -------------------------------------------------------------- foldings
  void foldings() {
    FoldingRangeParams Q;
    Q.textDocument.uri = Ctl::uri();
    std::vector<FoldingRange> R;
    bool F;
    bool Ok = ask(K.C, &Controller::onFoldingRange, Q, R, F);
    if (!Ok)
      return CHECK(!P, "fold", "no foldings");
    std::vector<Range> L;
    for (FoldingRange &X : R) {
      CHECK(X.startLine < X.endLine, "fold", "a folding of a single line");
      L.push_back({{(int)X.startLine, (int)X.startCharacter},
                   {(int)X.endLine, (int)X.endCharacter}});
      CHECK(inText(Src, L.back()), "fold", "a folding that is not in the text");
    }
    symx_reach("foldings");
    if (!P)
      return;
    std::vector<Range> May;
    for (Item &I : Ws->L) {
      if (!strchr("{[\\LWIs", I.K))
        continue;
      Range X = at(I.N);
      May.push_back(X);
      if (I.K == 'L') { // its bindings
        RN *B = I.N->C[0];
        X = rangeOf(Src, B->B, B->E);
        for (Range &Y : L)
          if (inside(X, Y) && inside(Y, May.back()) && !(Y == May.back()))
            May.push_back(Y);
        X = at(I.N);
      }
      if (X.start.line == X.end.line || !I.Must)
        continue;
      symx_reach("multi-line");
      CHECK(std::count(L.begin(), L.end(), X), "fold",
            "something of more than one line cannot be folded");
    }
    for (Range &Y : L)
      CHECK(std::count(May.begin(), May.end(), Y), "fold",
            "a folding of something else");
  }

  // ----------------------------------------------------------------- links
  // what a path of the program is, from the directory of the file
  static std::string resolve(const std::string &S) {
    std::string All = S[0] == '/' ? S : "/d/" + S;
    std::vector<std::string> L;
    for (size_t I = 0; I < All.size();) {
      size_t J = I;
      while (J < All.size() && All[J] != '/')
        J++;
      std::string X = All.substr(I, J - I);
      I = J + 1;
      if (X == "..") {
        if (!L.empty())
          L.pop_back();
      } else if (!X.empty() && X != ".")
        L.push_back(X);
    }
    std::string R;
    for (auto &X : L)
      R += "/" + X;
    return R.empty() ? "/" : R;
  }
  void paths(RN *N, std::vector<RN *> &L) {
    if (N->K == 'p')
      L.push_back(N);
    for (RN *C : N->C)
      paths(C, L);
  }
  void links() {
    DocumentLinkParams Q;
    Q.textDocument.uri = Ctl::uri();
    std::vector<DocumentLink> R;
    bool F;
    bool Ok = ask(K.C, &Controller::onDocumentLink, Q, R, F);
    if (!Ok)
      return CHECK(!P, "link", "no links");
    for (DocumentLink &X : R) {
      CHECK(inText(Src, X.range), "link", "a link that is not in the text");
      std::string T = X.target.file().str();
      CHECK(symx_disk(T) == 1 || symx_disk(T) == 2, "link",
            "a link to what does not exist");
    }
    symx_reach("links");
    if (!P)
      return;
    std::vector<RN *> L;
    paths(P->Root, L);
    size_t Known = 0;
    for (RN *N : L) {
      std::string To;
      if (literal(N) && text(N)[0] != '~') {
        std::string Abs = resolve(text(N));
        int Is = symx_disk(Abs);
        if (Is == 1)
          To = Abs;
        if (Is == 2) {
          Abs += Abs == "/" ? "default.nix" : "/default.nix";
          Is = symx_disk(Abs);
          if (Is == 1 || Is == 2)
            To = Abs;
        }
      }
      Range At = at(N);
      if (text(N)[0] == '~') { // from the home directory
        for (DocumentLink &X : R)
          if (X.range == At) {
            Known++;
            CHECK(!literal(N) || !sameBytes(X.target.file(), resolve(text(N))),
                  "link", "a path of the home directory leads elsewhere");
          }
        continue;
      }
      size_t M = 0;
      for (DocumentLink &X : R)
        if (X.range == At) {
          M++;
          CHECK(sameBytes(X.target.file(), To), "link",
                "a link leads elsewhere");
        }
      Known += M;
      CHECK(M == !To.empty(), "link",
            "a path to a file has no link, or another one has");
      // and so does its definition
      for (long I : {(long)N->B + 1, (long)N->E - 1}) {
        if (!literal(N))
          continue;
        TextDocumentPositionParams D;
        D.textDocument.uri = Ctl::uri();
        Pos2 X = posOf(Src, I);
        D.position = {(int)X.first, (int)X.second};
        llvm::json::Value J = nullptr;
        bool Got = ask(K.C, &Controller::onDefinition, D, J, F);
        std::string U;
        if (Got) {
          auto *A = J.getAsArray();
          auto *O = A && A->size() == 1 ? (*A)[0].getAsObject()
                                        : J.getAsObject();
          if (O)
            U = O->getString("uri").value_or("").str();
        }
        symx_reach("definition");
        CHECK(sameBytes(U, To.empty() ? "" : Ctl::uri(To).uri()),
              "definition", "the definition of a path is elsewhere");
      }
    }
    CHECK(Known == R.size(), "link", "a link where there is no path");
  }
};

} // namespace

extern "C" void symx_harness() {
  Tpl T;
  T.Hi = symx_param("hi", 0x7F);
  std::string_view Src = T.make(symx_param_str("tpl", "let a=1;in a"));
  int What = symx_param("what", 1);
  auto &V = *new View;
  V.Src = Src;
  auto *Pr = new ref::Prog(Src);
  bool Valid = Pr->Ok;
  if (Valid) {
    V.Sc = new ref::Scope(Pr->S);
    V.Sc->run(Pr->Root);
    Valid = !V.Sc->OldLet;
  }
  if (Valid) {
    std::vector<nixf::Diagnostic> Ds;
    auto A = nixf::parse(Src, Ds);
    Valid = A && !ref::anyError(Ds);
  }
  if (Valid) {
    symx_reach("program");
    V.P = Pr;
    V.Ws = new Walk{Pr->S, *V.Sc};
    V.Ws->walk(Pr->Root, true, -1);
  } else if (!symx_param("any", 0))
    symx_stop();
  V.K.open(Src);
  if (What & 1)
    V.tokens();
  if (What & 2)
    V.outline();
  if (What & 4)
    V.foldings();
  if (What & 8)
    V.links();
}
