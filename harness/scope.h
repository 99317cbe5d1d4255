// Reference for variables: what every variable of a valid program refers to,
// by the scoping rules of the language, on the reference tree (ref.h, sema.h).
#pragma once
#include "sema.h"
#include <set>

namespace ref {

struct SDef {
  RN *Key = nullptr; // null: builtin
  std::string Name;
  char Src = 'b'; // l let, r rec, a argument, w argument with formals,
                  // f formal, g formal with argument, b builtin
  bool Used = false;
  bool FromBuiltins = false; // inherit (builtins) ...
};
struct SEnv {
  SEnv *Up = nullptr;
  RN *With = nullptr;
  bool WithUsed = false;
  std::vector<SDef *> Defs;
};
struct Occ {
  int B, E;
  std::string Name;
  char K; // d defined, w from with, u undefined, p needs prefix
  SDef *D = nullptr;
  std::vector<SEnv *> Withs;
  SEnv *Env = nullptr;
};
struct Sel { // builtins.name
  RN *Node, *Name;
  SEnv *Env;
};

struct Scope {
  Sema &S;
  std::vector<Occ> Occs;
  std::vector<SDef *> Defs;                // all but builtins
  std::vector<SEnv *> WithEnvs;
  std::vector<std::pair<RN *, SEnv *>> Recs; // rec sets with their names
  std::vector<std::pair<AttrSet *, SEnv *>> Lets;
  std::vector<Sel> Sels;
  std::set<RN *> Seen;
  SEnv Root;
  bool OldLet = false;

  static const std::vector<std::string> &visible() { // primops
    static const std::vector<std::string> V = {
        "abort", "baseNameOf", "dirOf", "import", "map",
        "throw", "toString",   "__add", "__head", "__x", "y"};
    return V;
  }
  static const std::vector<std::string> &constants() {
    static const std::vector<std::string> V = {
        "true",           "false",           "null",
        "__currentTime",  "__currentSystem", "__nixVersion",
        "__storeDir",     "__langVersion",   "__importNative",
        "__traceVerbose", "__nixPath",       "derivation"};
    return V;
  }
  static bool among(const std::vector<std::string> &L, const std::string &N) {
    for (const std::string &X : L)
      if (sameBytes(X, N))
        return true;
    return false;
  }
  explicit Scope(Sema &S) : S(S) {
    for (auto *L : {&visible(), &constants()})
      for (const std::string &N : *L)
        Root.Defs.push_back(new SDef{nullptr, N});
    Root.Defs.push_back(new SDef{nullptr, "builtins"});
    Root.Defs.push_back(new SDef{nullptr, "__curPos"});
  }
  static SDef *findIn(SEnv *E, const std::string &N) {
    for (SDef *D : E->Defs)
      if (sameBytes(D->Name, N))
        return D;
    return nullptr;
  }
  static SDef *find(SEnv *E, const std::string &N) {
    for (; E; E = E->Up)
      if (SDef *D = findIn(E, N))
        return D;
    return nullptr;
  }
  SDef *def(RN *Key, const std::string &Name, char Src) {
    SDef *D = new SDef{Key, Name, Src};
    Defs.push_back(D);
    return D;
  }
  void use(RN *At, const std::string &Name, SEnv *E) {
    Occ O{At->B, At->E, Name, 'u'};
    O.Env = E;
    if (SDef *D = find(E, Name)) {
      O.K = 'd';
      O.D = D;
      D->Used = true;
    } else {
      for (SEnv *X = E; X; X = X->Up)
        if (X->With) {
          O.Withs.push_back(X);
          X->WithUsed = true;
        }
      if (!O.Withs.empty())
        O.K = 'w';
      else if (among(visible(), "__" + Name))
        O.K = 'p';
    }
    Occs.push_back(O);
  }
  static bool isVar(RN *N, const char *Name) {
    return N->K == 'v' && sameBytes(N->S, Name);
  }
  SEnv *attrs(AttrSet *A, SEnv *E, char Src) {
    SEnv *In = E;
    if (A->Rec) {
      In = new SEnv{E};
      for (Attr &X : A->Static) {
        SDef *D = def(X.Key, X.Name, Src);
        D->FromBuiltins = X.Kind == 'N' && isVar(X.Src, "builtins");
        In->Defs.push_back(D);
      }
    }
    for (auto *L : {&A->Static, &A->Dynamic})
      for (Attr &X : *L) {
        if (L == &A->Dynamic)
          walk(X.Key, In);
        if (X.Kind == 'n')
          use(X.Key, X.Name, E);
        else if (X.Kind == 'N') {
          if (Seen.insert(X.Src).second)
            walk(X.Src, In);
        } else if (X.Set)
          set(X.Set, In);
        else
          walk(X.Value, In);
      }
    return In;
  }
  void set(AttrSet *A, SEnv *E) {
    SEnv *In = attrs(A, E, 'r');
    if (A->Rec && A->Node)
      Recs.push_back({A->Node, In});
  }
  void walk(RN *N, SEnv *E) {
    switch (N->K) {
    case 'v':
      use(N, N->S, E);
      return;
    case '\\': {
      SEnv *In = new SEnv{E};
      RN *Arg = nullptr, *F = nullptr;
      for (size_t I = 0; I + 1 < N->C.size(); I++)
        (N->C[I]->K == 'F' ? F : Arg) = N->C[I];
      if (Arg)
        In->Defs.push_back(def(Arg, Arg->S, F ? 'w' : 'a'));
      if (F) {
        for (RN *O : F->C)
          if (!O->V)
            In->Defs.push_back(def(O->C[0], O->C[0]->S, Arg ? 'g' : 'f'));
        for (RN *O : F->C)
          if (!O->V && O->C.size() > 1)
            walk(O->C[1], In);
      }
      walk(N->C.back(), In);
      return;
    }
    case '{':
      set(S.Sets[N], E);
      return;
    case 'L': {
      AttrSet *A = S.Sets[N->C[0]];
      SEnv *In = attrs(A, E, 'l');
      Lets.push_back({A, In});
      walk(N->C[1], In);
      return;
    }
    case 'l':
      OldLet = true;
      return;
    case 'W': {
      walk(N->C[0], E);
      SEnv *In = new SEnv{E};
      In->With = N;
      WithEnvs.push_back(In);
      walk(N->C[1], In);
      return;
    }
    case '.':
      if (isVar(N->C[0], "builtins") && N->C[1]->C.size() == 1)
        Sels.push_back({N, N->C[1]->C[0], E});
      break;
    }
    for (RN *C : N->C)
      walk(C, E);
  }
  void run(RN *N) { walk(N, &Root); }
};

} // namespace ref
