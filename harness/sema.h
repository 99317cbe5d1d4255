// Reference for the static checks on bindings and formals: which attribute a
// binding contributes to, which definitions are duplicates, which attribute
// sets merge.
#pragma once
#include "ref.h"
#include <map>

namespace ref {

struct AttrSet;
struct Attr {
  RN *Key = nullptr;        // 'N'
  std::string Name;         // static name
  char Kind = '=';          // '=' plain, 'n' inherit, 'N' inherit (e)
  RN *Value = nullptr;      // value, null for implied sets and inherits
  AttrSet *Set = nullptr;   // the value is an attribute set
  RN *Src = nullptr;        // e of inherit (e)
};
struct AttrSet {
  bool Rec = false;
  RN *Node = nullptr; // null: implied by an attribute path
  std::vector<Attr> Static, Dynamic;
};
struct Dup {
  int B, E, PB, PE;
};

struct Sema {
  bool Bad = false, Unspec = false;
  bool LetDynamic = false, RecMismatch = false;
  int NRecMismatch = 0;
  std::vector<Dup> Dups, FormalDups, ArgDups;
  std::map<RN *, AttrSet *> Sets;

  // static name of an attribute; false when dynamic
  static bool name(RN *N, std::string &Out) {
    if (N->C.empty()) {
      Out = N->S;
      return true;
    }
    RN *S = N->C[0];
    if (S->K != 's')
      return false;
    if (S->C.empty()) {
      Out = "";
      return true;
    }
    if (S->C.size() == 1 && S->C[0]->K == '"') {
      Out = S->C[0]->S;
      return true;
    }
    return false;
  }
  static Attr *find(AttrSet *S, const std::string &Nm) {
    for (Attr &A : S->Static)
      if (sameBytes(A.Name, Nm))
        return &A;
    return nullptr;
  }
  void dup(RN *Key, RN *Prev) {
    Bad = true;
    Dups.push_back({Key->B, Key->E, Prev->B, Prev->E});
  }
  void insert(AttrSet *S, RN *Key, RN *Value) {
    std::string Nm;
    Attr A;
    A.Key = Key;
    A.Value = Value;
    if (Value->K == '{')
      A.Set = Sets[Value];
    if (!name(Key, Nm)) {
      S->Dynamic.push_back(A);
      return;
    }
    A.Name = Nm;
    if (Attr *Old = find(S, Nm)) {
      // Nix looks through parentheses here, nixf does not
      for (RN *V : {Old->Value, Value})
        if (V && V->K == '(') {
          RN *I = V;
          while (I->K == '(')
            I = I->C[0];
          if (I->K == '{')
            Unspec = true;
        }
      if (Old->Set && A.Set) {
        if (Old->Set->Rec != A.Set->Rec) {
          RecMismatch = true;
          NRecMismatch++;
        }
        AttrSet *X = Old->Set;
        for (Attr &Y : A.Set->Static) {
          if (Attr *Z = find(X, Y.Name))
            dup(Y.Key, Z->Key);
          else
            X->Static.push_back(Y);
        }
        for (Attr &Y : A.Set->Dynamic)
          X->Dynamic.push_back(Y);
        return;
      }
      dup(Key, Old->Key);
      return;
    }
    S->Static.push_back(A);
  }
  void binding(AttrSet *S, RN *B) {
    RN *Path = B->C[0];
    for (RN *N : Path->C)
      if (N->V)
        Unspec = true; // ${"lit"} is static for Nix, dynamic for nixf
    for (size_t I = 0; I + 1 < Path->C.size(); I++) {
      RN *N = Path->C[I];
      std::string Nm;
      if (name(N, Nm)) {
        if (Attr *Old = find(S, Nm)) {
          if (!Old->Set) {
            if (Old->Value && Old->Value->K == '(')
              Unspec = true;
            dup(N, Old->Key);
            return;
          }
          S = Old->Set;
          continue;
        }
        Attr A;
        A.Key = N;
        A.Name = Nm;
        A.Set = new AttrSet();
        S->Static.push_back(A);
        S = A.Set;
      } else {
        Attr A;
        A.Key = N;
        A.Set = new AttrSet();
        S->Dynamic.push_back(A);
        S = A.Set;
      }
    }
    insert(S, Path->C.back(), B->C[1]);
  }
  AttrSet *attrs(RN *E, bool Rec) {
    AttrSet *S = new AttrSet();
    S->Rec = Rec;
    S->Node = E;
    for (RN *B : E->C) {
      if (B->K == '=') {
        binding(S, B);
        continue;
      }
      for (size_t I = B->V ? 1 : 0; I < B->C.size(); I++) {
        std::string Nm;
        if (!name(B->C[I], Nm))
          continue;
        if (Attr *Old = find(S, Nm)) {
          dup(B->C[I], Old->Key);
          continue;
        }
        Attr A;
        A.Key = B->C[I];
        A.Name = Nm;
        A.Kind = B->V ? 'N' : 'n';
        A.Src = B->V ? B->C[0] : nullptr;
        S->Static.push_back(A);
      }
    }
    return S;
  }
  void formals(RN *L) {
    RN *Arg = nullptr, *F = nullptr;
    for (size_t I = 0; I + 1 < L->C.size(); I++)
      (L->C[I]->K == 'F' ? F : Arg) = L->C[I];
    if (!F)
      return;
    std::vector<RN *> Seen;
    auto Find = [&](const std::string &S) -> RN * {
      for (RN *X : Seen)
        if (sameBytes(X->S, S))
          return X;
      return nullptr;
    };
    for (RN *O : F->C) {
      if (O->V)
        continue;
      RN *Id = O->C[0];
      if (RN *P = Find(Id->S)) {
        Bad = true;
        FormalDups.push_back({Id->B, Id->E, P->B, P->E});
      } else
        Seen.push_back(Id);
    }
    if (Arg)
      if (RN *P = Find(Arg->S)) {
        Bad = true;
        // (the note points at the whole formal)
        ArgDups.push_back({Arg->B, Arg->E, P->B, P->E});
      }
  }
  // bottom-up
  void walk(RN *N) {
    for (RN *C : N->C)
      walk(C);
    if (N->K == '{')
      Sets[N] = attrs(N, N->V != 0);
    if (N->K == 'L') {
      RN *B = N->C[0]; // visited above as a plain set
      AttrSet *S = Sets[B];
      S->Rec = true;
      if (!S->Dynamic.empty())
        LetDynamic = Bad = true;
    }
    if (N->K == '\\')
      formals(N);
  }
};

} // namespace ref
