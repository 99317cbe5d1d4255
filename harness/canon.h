// What two programs (reference trees) mean, compared up to renamings of
// structure that cannot be observed: names are replaced by what they stand for
// (let, rec, inherit and with unfold), attribute sets are compared after their
// paths are merged, strings by the parts they denote. A name that only a `with`
// can provide is taken from the innermost one.
#pragma once
#include "scope.h"
#include <set>

namespace ref {

struct Term;
struct Env {
  Env *Up = nullptr;
  char K = 'e'; // e empty, l lambda, a attrs, w with, = given names
  RN *N = nullptr;
  AttrSet *A = nullptr;
  Env *Out = nullptr;
  Env *Partner = nullptr; // of a lambda: the one it is compared with
  std::vector<std::pair<std::string, Term *>> Al;
};
struct Term {
  char K; // n node, s set, . selection, r argument, g global, @ application,
          // ! no value, x error
  RN *N = nullptr;
  Env *E = nullptr;
  AttrSet *A = nullptr;
  Term *B = nullptr;
  std::string S;
  std::vector<Term *> Args;
};

// The parts a string denotes
struct SPart {
  std::string S;
  RN *I = nullptr;
};

struct Prog {
  RN *Root = nullptr;
  Sema S;
  bool Ok = false;
  explicit Prog(std::string_view X) {
    Ref R(X);
    Root = R.parse();
    Ok = !R.Bad && !R.Unspec;
    if (Ok) {
      S.walk(Root);
      Ok = !S.Bad && !S.Unspec && !S.RecMismatch;
    }
  }
};

struct Canon {
  std::map<std::pair<AttrSet *, Env *>, Env *> Ins;
  std::map<RN *, AttrSet *> Sets;
  std::set<std::pair<std::pair<void *, Env *>, std::pair<void *, Env *>>> Memo;
  Env RootEnv;
  Prog *Imported = nullptr; // what import FileName yields
  std::string FileName;
  bool Apply = false; // the file is a function made for the call
  RN *RenKey = nullptr; // a name of the first program which is another one,
  std::string RenNew;   // this, in the second
  int Fuel = 4000;

  void know(Prog &P) {
    for (auto &X : P.S.Sets)
      Sets[X.first] = X.second;
  }
  static Term *node(RN *N, Env *E) {
    Term *T = new Term{'n'};
    T->N = N;
    T->E = E;
    return T;
  }
  static Term *sel(Term *B, const std::string &S) {
    Term *T = new Term{'.'};
    T->B = B;
    T->S = S;
    return T;
  }
  Term *setT(AttrSet *A, Env *E) {
    Term *T = new Term{'s'};
    T->A = A;
    T->E = E;
    return T;
  }
  Env *inner(AttrSet *A, Env *E) {
    if (!A->Rec)
      return E;
    Env *&R = Ins[{A, E}];
    if (!R) {
      R = new Env{E, 'a'};
      R->A = A;
      R->Out = E;
    }
    return R;
  }
  Term *attr(const Attr &X, Env *In, Env *Out) {
    if (X.Kind == 'n')
      return lookup(X.Name, Out);
    if (X.Kind == 'N')
      return sel(node(X.Src, In), X.Name);
    if (X.Set)
      return setT(X.Set, In);
    return node(X.Value, In);
  }
  static bool global(const std::string &N) {
    return Scope::among(Scope::visible(), N) ||
           Scope::among(Scope::constants(), N) || sameBytes(N, "builtins");
  }
  Term *lookup(const std::string &N, Env *E) {
    Env *With = nullptr;
    for (; E; E = E->Up) {
      switch (E->K) {
      case 'l':
        for (auto &A : E->Al)
          if (sameBytes(A.first, N)) {
            Term *T = new Term{'r'};
            T->E = E;
            T->S = N;
            return T;
          }
        break;
      case '=':
        for (auto &A : E->Al)
          if (sameBytes(A.first, N))
            return A.second;
        break;
      case 'a':
        if (Attr *X = Sema::find(E->A, N))
          return attr(*X, E, E->Out);
        break;
      case 'w':
        if (!With)
          With = E;
        break;
      }
    }
    if (With && !global(N))
      return sel(node(With->N, With->Out), N);
    Term *T = new Term{'g'};
    T->S = N;
    return T;
  }
  Term *fail() { return new Term{'x'}; }
  Env *lambda(RN *N, Env *E) {
    Env *In = new Env{E, 'l'};
    In->N = N;
    for (size_t I = 0; I + 1 < N->C.size(); I++) {
      RN *P = N->C[I];
      if (P->K != 'F')
        In->Al.push_back({P->S, nullptr});
      else
        for (RN *O : P->C)
          if (!O->V)
            In->Al.push_back({O->C[0]->S, nullptr});
    }
    return In;
  }
  // the file's function applied to the argument
  Term *beta(Term *F, Term *Arg) {
    if (F->N->K != '\\')
      return fail();
    Arg = hn(Arg);
    if (Arg->K != 's' || !Arg->A->Dynamic.empty())
      return fail();
    RN *L = F->N, *Fs = nullptr;
    for (size_t I = 0; I + 1 < L->C.size(); I++) {
      if (L->C[I]->K != 'F')
        return fail();
      Fs = L->C[I];
    }
    if (!Fs)
      return fail();
    Env *&Memo = Betas[{{L, F->E}, {Arg->A, Arg->E}}];
    if (Memo)
      return node(L->C.back(), Memo);
    Env *In = new Env{F->E, '='};
    Env *AIn = inner(Arg->A, Arg->E);
    for (RN *O : Fs->C) {
      if (O->V || O->C.size() > 1)
        return fail();
      Attr *X = Sema::find(Arg->A, O->C[0]->S);
      if (!X)
        return fail();
      In->Al.push_back({O->C[0]->S, attr(*X, AIn, Arg->E)});
    }
    if (In->Al.size() != Arg->A->Static.size())
      return fail();
    Memo = In;
    return node(L->C.back(), In);
  }
  std::map<std::pair<std::pair<RN *, Env *>, std::pair<AttrSet *, Env *>>,
           Env *>
      Betas;
  Term *hn(Term *T) {
    for (int Steps = 0; Steps < 60; Steps++) {
      if (T->K == '@') {
        Term *F = hn(T->B);
        if (F->K == '@') { // (f a) b
          Term *X = new Term{'@'};
          X->B = F->B;
          X->Args = F->Args;
          X->Args.insert(X->Args.end(), T->Args.begin(), T->Args.end());
          return X;
        }
        if (Imported && F->K == 'g' && sameBytes(F->S, "import")) {
          RN *A = T->Args[0]->N;
          if (A && A->K == 'p' && A->C.size() == 1 && A->C[0]->K == '"' &&
              sameBytes(A->C[0]->S, FileName)) {
            Term *R = node(Imported->Root, &RootEnv);
            size_t From = 1;
            if (Apply) {
              if (T->Args.size() < 2)
                return fail();
              R = beta(R, T->Args[1]);
              From = 2;
            }
            if (T->Args.size() > From) {
              Term *X = new Term{'@'};
              X->B = R;
              X->Args.assign(T->Args.begin() + From, T->Args.end());
              R = X;
            }
            T = R;
            continue;
          }
        }
        Term *X = new Term{'@'};
        X->B = F;
        X->Args = T->Args;
        return X;
      }
      if (T->K != 'n')
        return T;
      RN *N = T->N;
      Env *E = T->E;
      switch (N->K) {
      case '(':
        T = node(N->C[0], E);
        continue;
      case 'L':
        T = node(N->C[1], inner(Sets[N->C[0]], E));
        continue;
      case 'W': {
        Env *&W = Withs[{N, E}];
        if (!W) {
          W = new Env{E, 'w'};
          W->N = N->C[0];
          W->Out = E;
        }
        T = node(N->C[1], W);
        continue;
      }
      case '{':
        return setT(Sets[N], E);
      case 'v':
        T = lookup(N->S, E);
        continue;
      case '.':
        if (N->C.size() > 2)
          return T;
        {
          Term *R = node(N->C[0], E);
          for (RN *K : N->C[1]->C)
            R = key(R, K, E);
          return R;
        }
      case 'c': {
        Term *X = new Term{'@'};
        X->B = node(N->C[0], E);
        for (size_t I = 1; I < N->C.size(); I++)
          X->Args.push_back(node(N->C[I], E));
        T = X;
        continue;
      }
      default:
        return T;
      }
    }
    return new Term{'!'};
  }
  std::map<std::pair<RN *, Env *>, Env *> Withs;
  Term *key(Term *B, RN *K, Env *E) {
    std::string S;
    if (Sema::name(K, S))
      return sel(B, S);
    Term *T = sel(B, "");
    T->N = K;
    T->E = E;
    return T;
  }
  static bool statik(RN *K) {
    std::string S;
    return Sema::name(K, S);
  }
  bool eqKey(RN *A, Env *EA, RN *B, Env *EB) {
    std::string SA, SB;
    bool X = Sema::name(A, SA), Y = Sema::name(B, SB);
    if (X || Y)
      return X && Y && sameBytes(SA, SB);
    RN *P = A->C[0], *Q = B->C[0];
    if (P->K != Q->K)
      return false;
    if (P->K == '$')
      return eq(node(P->C[0], EA), node(Q->C[0], EB));
    return eqStr(P, EA, Q, EB);
  }
  static void chunk(std::vector<SPart> &R, const std::string &S) {
    if (S.empty())
      return;
    if (R.empty() || R.back().I)
      R.push_back({});
    R.back().S += S;
  }
  static std::vector<SPart> parts(RN *N) {
    std::vector<SPart> R;
    if (N->K != 's' || N->V != 1) {
      for (RN *C : N->C) {
        if (C->K == '"')
          chunk(R, C->S);
        else
          R.push_back({"", C});
      }
      return R;
    }
    // Indented: tokens of the lexer, without the rest of a blank first line
    struct Tk {
      std::string S;
      bool Esc;
      RN *I;
    };
    std::vector<Tk> L;
    for (RN *C : N->C) {
      if (C->K != '"') {
        L.push_back({"", false, C});
        continue;
      }
      for (size_t I = 0; I < C->S.size(); I++) {
        bool Esc = C->M[I];
        if (Esc || L.empty() || L.back().I || L.back().Esc)
          L.push_back({"", Esc, nullptr});
        L.back().S += C->S[I];
      }
    }
    if (!L.empty() && !L[0].I && !L[0].Esc) {
      size_t K = 0;
      while (K < L[0].S.size() && L[0].S[K] == ' ')
        K++;
      if (K < L[0].S.size() && L[0].S[K] == '\n')
        L[0].S.erase(0, K + 1);
      if (L[0].S.empty())
        L.erase(L.begin());
    }
    bool Start = true;
    size_t Min = 1000000, Cur = 0;
    for (Tk &T : L) {
      if (T.I || T.Esc) {
        if (Start) {
          Start = false;
          if (Cur < Min)
            Min = Cur;
        }
        continue;
      }
      for (char C : T.S) {
        if (Start) {
          if (C == ' ')
            Cur++;
          else if (C == '\n')
            Cur = 0;
          else {
            Start = false;
            if (Cur < Min)
              Min = Cur;
          }
        } else if (C == '\n') {
          Start = true;
          Cur = 0;
        }
      }
    }
    Start = true;
    size_t Drop = 0;
    for (size_t I = 0; I < L.size(); I++) {
      Tk &T = L[I];
      if (T.I) {
        Start = false;
        Drop = 0;
        R.push_back({"", T.I});
        continue;
      }
      std::string O;
      for (char C : T.S) {
        if (Start) {
          if (C == ' ') {
            if (Drop++ >= Min)
              O += C;
          } else if (C == '\n') {
            Drop = 0;
            O += C;
          } else {
            Start = false;
            Drop = 0;
            O += C;
          }
        } else {
          O += C;
          if (C == '\n')
            Start = true;
        }
      }
      if (I + 1 == L.size()) {
        size_t P = O.size();
        while (P && O[P - 1] == ' ')
          P--;
        if (P && O[P - 1] == '\n')
          O.resize(P);
      }
      chunk(R, O);
    }
    return R;
  }
  bool eqStr(RN *A, Env *EA, RN *B, Env *EB) {
    std::vector<SPart> P = parts(A), Q = parts(B);
    if (P.size() != Q.size())
      return false;
    for (size_t I = 0; I < P.size(); I++) {
      if (!P[I].I != !Q[I].I)
        return false;
      if (!P[I].I) {
        if (!sameBytes(P[I].S, Q[I].S))
          return false;
      } else if (!eq(node(P[I].I->C[0], EA), node(Q[I].I->C[0], EB)))
        return false;
    }
    return true;
  }
  bool eqSet(Term *A, Term *B) {
    if (A->A->Static.size() != B->A->Static.size() ||
        A->A->Dynamic.size() != B->A->Dynamic.size())
      return false;
    Env *IA = inner(A->A, A->E), *IB = inner(B->A, B->E);
    for (Attr &X : A->A->Static) {
      bool Ren = RenKey && X.Key == RenKey;
      if (Ren && Sema::find(B->A, X.Name))
        return false;
      Attr *Y = Sema::find(B->A, Ren ? RenNew : X.Name);
      if (!Y || !eq(attr(X, IA, A->E), attr(*Y, IB, B->E)))
        return false;
    }
    for (size_t I = 0; I < A->A->Dynamic.size(); I++) {
      Attr &X = A->A->Dynamic[I], &Y = B->A->Dynamic[I];
      if (!eqKey(X.Key, IA, Y.Key, IB) ||
          !eq(attr(X, IA, A->E), attr(Y, IB, B->E)))
        return false;
    }
    return true;
  }
  bool eqParam(RN *X, RN *Y) {
    return sameBytes(X == RenKey ? RenNew : X->S, Y->S);
  }
  // the parameter that is renamed
  bool renamed(Env *E, const std::string &S) {
    if (!RenKey || !sameBytes(RenKey->S, S))
      return false;
    for (RN *P : E->N->C) {
      if (P == RenKey)
        return true;
      if (P->K == 'F')
        for (RN *O : P->C)
          if (!O->V && O->C[0] == RenKey)
            return true;
    }
    return false;
  }
  bool eqLambda(RN *A, Env *EA, RN *B, Env *EB) {
    if (A->C.size() != B->C.size())
      return false;
    Env *IA = lambda(A, EA), *IB = lambda(B, EB);
    IA->Partner = IB;
    if (IA->Al.size() != IB->Al.size())
      return false;
    for (size_t I = 0; I + 1 < A->C.size(); I++) {
      RN *X = A->C[I], *Y = B->C[I];
      if (X->K != Y->K)
        return false;
      if (X->K != 'F') {
        if (!eqParam(X, Y))
          return false;
        continue;
      }
      if (X->C.size() != Y->C.size())
        return false;
      for (size_t J = 0; J < X->C.size(); J++) {
        RN *O = X->C[J], *P = Y->C[J];
        if (O->V != P->V || O->C.size() != P->C.size())
          return false;
        if (!O->V && !eqParam(O->C[0], P->C[0]))
          return false;
        if (O->C.size() > 1 && !eq(node(O->C[1], IA), node(P->C[1], IB)))
          return false;
      }
    }
    return eq(node(A->C.back(), IA), node(B->C.back(), IB));
  }
  bool eq(Term *A, Term *B) {
    if (--Fuel < 0)
      return true;
    if (A->K == 'n' && B->K == 'n' &&
        !Memo.insert({{A->N, A->E}, {B->N, B->E}}).second)
      return true;
    A = hn(A);
    B = hn(B);
    if (A->K == '!')
      return true; // no value: nothing to keep
    if (A->K != B->K)
      return false;
    switch (A->K) {
    case '!':
      return true;
    case 'x':
      return false;
    case 'g':
      return sameBytes(A->S, B->S);
    case 'r':
      return A->E->Partner == B->E &&
             sameBytes(renamed(A->E, A->S) ? RenNew : A->S, B->S);
    case '.':
      if (!A->N != !B->N)
        return false;
      if (A->N ? !eqKey(A->N, A->E, B->N, B->E) : !sameBytes(A->S, B->S))
        return false;
      return eq(A->B, B->B);
    case '@':
      if (A->Args.size() != B->Args.size() || !eq(A->B, B->B))
        return false;
      for (size_t I = 0; I < A->Args.size(); I++)
        if (!eq(A->Args[I], B->Args[I]))
          return false;
      return true;
    case 's':
      if (!Memo.insert({{A->A, A->E}, {B->A, B->E}}).second)
        return true;
      return eqSet(A, B);
    }
    RN *X = A->N, *Y = B->N;
    if (X->K != Y->K)
      return false;
    switch (X->K) {
    case 's':
    case 'p':
      return eqStr(X, A->E, Y, B->E);
    case 'i':
      return X->V == Y->V;
    case 'f':
      return X->V == Y->V;
    case 'S':
      return sameBytes(X->S, Y->S);
    case '\\':
      return eqLambda(X, A->E, Y, B->E);
    case '?':
    case '.': {
      RN *P = X->C[1], *Q = Y->C[1];
      if (P->C.size() != Q->C.size() || X->C.size() != Y->C.size() ||
          !eq(node(X->C[0], A->E), node(Y->C[0], B->E)))
        return false;
      for (size_t I = 0; I < P->C.size(); I++)
        if (!eqKey(P->C[I], A->E, Q->C[I], B->E))
          return false;
      return X->C.size() < 3 ||
             eq(node(X->C[2], A->E), node(Y->C[2], B->E));
    }
    default:
      if (X->V != Y->V || X->C.size() != Y->C.size())
        return false;
      for (size_t I = 0; I < X->C.size(); I++)
        if (!eq(node(X->C[I], A->E), node(Y->C[I], B->E)))
          return false;
      return true;
    }
  }
  bool same(Prog &A, Prog &B) {
    know(A);
    know(B);
    if (Imported)
      know(*Imported);
    return eq(node(A.Root, &RootEnv), node(B.Root, &RootEnv));
  }
};

} // namespace ref
