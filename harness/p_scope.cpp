// Variables of valid programs: resolution, scopes, and the reports derived from
// them, against scope.h.
//   tpl: the text; what: 1 resolution  2 reports on liveness
//     4 reports on undefined names, builtins and constants
#include "scope.h"
#include "dump.h"
#include "tpl.h"
#include <algorithm>
#include <array>
#include <nixf/Sema/VariableLookup.h>
#include <tuple>

using namespace nixf;
using ref::RN;
using VLA = VariableLookupAnalysis;

namespace {

struct Vars {
  std::map<int, std::vector<const ExprVar *>> At;
  std::set<const Node *> Seen;
  void sema(const SemaAttrs &S) {
    for (const auto &[_, A] : S.staticAttrs())
      visit(A.value());
    for (const auto &A : S.dynamicAttrs()) {
      visit(&A.key());
      visit(A.value());
    }
  }
  void visit(const Node *N) {
    if (!N || !Seen.insert(N).second)
      return;
    if (N->kind() == Node::NK_ExprVar)
      At[(int)N->lCur().offset()].push_back(static_cast<const ExprVar *>(N));
    if (N->kind() == Node::NK_ExprAttrs)
      sema(static_cast<const ExprAttrs *>(N)->sema());
    for (const Node *C : N->children())
      visit(C);
  }
};

bool at(const Node &N, int B, int E) {
  return (int)N.lCur().offset() == B && (int)N.rCur().offset() == E;
}

Definition::DefinitionSource src(char C) {
  switch (C) {
  case 'l':
    return Definition::DS_Let;
  case 'r':
    return Definition::DS_Rec;
  case 'a':
    return Definition::DS_LambdaArg;
  case 'w':
    return Definition::DS_LambdaWithArg_Arg;
  case 'f':
    return Definition::DS_LambdaNoArg_Formal;
  case 'g':
    return Definition::DS_LambdaWithArg_Formal;
  default:
    return Definition::DS_Builtin;
  }
}

using Rep = std::array<int, 3>;
std::vector<Rep> uniq(std::vector<Rep> V) {
  std::sort(V.begin(), V.end());
  V.erase(std::unique(V.begin(), V.end()), V.end());
  return V;
}

} // namespace

extern "C" void symx_harness() {
  Tpl T;
  std::string_view Src = T.make(symx_param_str("tpl", "let N=1; in N"));
  int What = symx_param("what", 1);
  ref::Ref R(Src);
  RN *E = R.parse();
  if (R.Unspec || R.Bad)
    symx_stop();
  ref::Sema S;
  S.walk(E);
  if (S.Unspec || S.Bad || S.RecMismatch)
    symx_stop();
  ref::Scope Sc(S);
  Sc.run(E);
  if (Sc.OldLet)
    symx_stop();

  std::vector<Diagnostic> D;
  auto A = parse(Src, D);
  if (!A || ref::anyError(D))
    symx_stop(); // P07
  D.clear();
  VLA V(D);
  V.runOnAST(*A);
  symx_digest_u64(D.size());
  symx_reach("program");

  if (What & 1) {
    Vars X;
    X.visit(A.get());
    std::map<int, const ref::Occ *> Want;
    for (const ref::Occ &O : Sc.Occs)
      Want[O.B] = &O;
    // uses per definition
    std::map<ref::SDef *, const Definition *> DefOf;
    std::map<const Definition *, std::set<int>> Uses, WantUses;
    for (const ref::Occ &O : Sc.Occs) {
      auto It = X.At.find(O.B);
      const ExprVar *Var = nullptr;
      VLA::LookupResult Q{};
      if (It != X.At.end())
        for (const ExprVar *Y : It->second) {
          VLA::LookupResult Z = V.query(*Y);
          if (Z.Kind == VLA::LookupResultKind::NoSuchVar)
            continue;
          CHECK(!Var, "resolution", "a variable is resolved twice");
          Var = Y;
          Q = Z;
        }
      CHECK(Var, "resolution", "a variable is not resolved");
      if (!Var)
        return;
      CHECK(at(*Var, O.B, O.E), "resolution", "a variable is misplaced");
      CHECK(sameBytes(Var->id().name(), O.Name), "resolution",
            "a variable has another name");
      symx_digest_u64((int)Q.Kind);
      switch (O.K) {
      case 'd': {
        symx_reach("defined");
        CHECK(Q.Kind == VLA::LookupResultKind::Defined && Q.Def, "resolution",
              "a variable in scope is not found");
        if (!Q.Def)
          return;
        CHECK(Q.Def->source() == src(O.D->Src), "resolution",
              "a variable resolves to another kind of definition");
        CHECK(!Q.Def->syntax() == !O.D->Key, "resolution",
              "a variable resolves to the wrong definition");
        if (O.D->Key && Q.Def->syntax()) {
          CHECK(at(*Q.Def->syntax(), O.D->Key->B, O.D->Key->E), "resolution",
                "a variable resolves to the wrong definition");
          CHECK(V.toDef(*Q.Def->syntax()) == Q.Def.get(), "resolution",
                "a name does not know its definition");
        }
        for (const ExprVar *U : Q.Def->uses())
          Uses[Q.Def.get()].insert((int)U->lCur().offset());
        CHECK(Uses[Q.Def.get()].size() == Q.Def->uses().size(), "uses",
              "a use is recorded twice");
        WantUses[Q.Def.get()].insert(O.B);
        break;
      }
      case 'w': {
        symx_reach("from-with");
        CHECK(Q.Kind == VLA::LookupResultKind::FromWith, "resolution",
              "a variable is not attributed to the with around it");
        auto W = V.getWithScopes(*Var);
        CHECK(W.size() == O.Withs.size(), "resolution",
              "number of with scopes of a variable differs");
        if (W.size() != O.Withs.size())
          return;
        for (size_t I = 0; I < W.size(); I++) {
          CHECK((int)W[I]->lCur().offset() == O.Withs[I]->With->B,
                "resolution", "with scopes of a variable differ");
          const Definition *WD = V.toDef(W[I]->kwWith());
          bool Found = false;
          if (WD)
            for (const ExprVar *U : WD->uses())
              Found |= U == Var;
          CHECK(Found, "uses", "a with does not know its user");
        }
        break;
      }
      default:
        symx_reach("undefined");
        CHECK(Q.Kind == VLA::LookupResultKind::Undefined, "resolution",
              "a variable not in scope is found");
      }
      // names offered there
      const EnvNode *N = V.env(Var);
      CHECK(N, "scope", "no scope is recorded for a variable");
      ref::SEnv *W = O.Env;
      // scopes without names do not matter, the outermost holds the builtins
      while (N) {
        while (N->parent() && N->defs().empty())
          N = N->parent();
        while (W->Up && W->Defs.empty())
          W = W->Up;
        if (!N->parent() || !W->Up)
          break;
        CHECK(N->defs().size() == W->Defs.size(), "scope",
              "the names in scope differ");
        for (ref::SDef *Y : W->Defs) {
          bool Found = false;
          for (const auto &[Nm, Df] : N->defs())
            if (sameBytes(Nm, Y->Name)) {
              Found = Df->syntax() && at(*Df->syntax(), Y->Key->B, Y->Key->E);
              break;
            }
          CHECK(Found, "scope", "a name in scope is missing");
        }
        N = N->parent();
        W = W->Up;
      }
      CHECK(N && !N->parent() && !W->Up, "scope", "the scopes differ");
    }
    for (const auto &[B, Vs] : X.At)
      for (const ExprVar *Y : Vs)
        CHECK(Want.count(B) ||
                  V.query(*Y).Kind == VLA::LookupResultKind::NoSuchVar,
              "resolution", "something that is no variable is resolved");
    CHECK(Uses == WantUses, "uses", "the uses of a definition differ");
  }

  using DK = Diagnostic;
  std::vector<Rep> Want, Got;
  std::set<int> Kinds;
  auto Add = [&](int K, int B, int E) { Want.push_back({K, B, E}); };
  if (What & 2) {
    for (int K : {DK::DK_UnusedDefLet, DK::DK_UnusedDefLambdaNoArg_Formal,
                  DK::DK_UnusedDefLambdaWithArg_Formal,
                  DK::DK_UnusedDefLambdaWithArg_Arg, DK::DK_ExtraRecursive,
                  DK::DK_ExtraWith})
      Kinds.insert(K);
    for (ref::SDef *X : Sc.Defs) {
      if (X->Used || X->Src == 'a' || X->Src == 'r')
        continue;
      symx_reach("unused");
      Add(X->Src == 'l'   ? (int)DK::DK_UnusedDefLet
                      : X->Src == 'f' ? (int)DK::DK_UnusedDefLambdaNoArg_Formal
                      : X->Src == 'g'
                          ? (int)DK::DK_UnusedDefLambdaWithArg_Formal
                          : (int)DK::DK_UnusedDefLambdaWithArg_Arg,
                      X->Key->B, X->Key->E);
    }
    for (auto &[N, Env] : Sc.Recs) {
      bool Used = false;
      for (ref::SDef *X : Env->Defs)
        Used |= X->Used;
      if (!Used) {
        symx_reach("extra-rec");
        Add(DK::DK_ExtraRecursive, N->B, N->B + 3);
      }
    }
    for (ref::SEnv *W : Sc.WithEnvs)
      if (!W->WithUsed) {
        symx_reach("extra-with");
        Add(DK::DK_ExtraWith, W->With->B, W->With->B + 4);
      }
  }
  if (What & 4) {
    for (int K : {DK::DK_UndefinedVariable, DK::DK_PrimOpNeedsPrefix,
                  DK::DK_PrimOpOverridden, DK::DK_ConstantOverridden,
                  DK::DK_PrimOpRemovablePrefix, DK::DK_PrimOpUnknown})
      Kinds.insert(K);
    for (const ref::Occ &O : Sc.Occs)
      if (O.K == 'u' || O.K == 'p') {
        symx_reach(O.K == 'u' ? "undefined-report" : "prefix-report");
        Add(O.K == 'u' ? (int)DK::DK_UndefinedVariable
                                   : (int)DK::DK_PrimOpNeedsPrefix,
                        O.B, O.E);
      }
    for (ref::SDef *X : Sc.Defs) {
      if (ref::Scope::among(ref::Scope::visible(), X->Name) &&
          !X->FromBuiltins) {
        symx_reach("overridden");
        Add(DK::DK_PrimOpOverridden, X->Key->B, X->Key->E);
      }
      if (ref::Scope::among(ref::Scope::constants(), X->Name))
        Add(DK::DK_ConstantOverridden, X->Key->B, X->Key->E);
    }
    auto Global = [&](ref::SEnv *Env, const char *N) {
      ref::SDef *X = ref::Scope::find(Env, N);
      return X && !X->Key;
    };
    for (const ref::Sel &X : Sc.Sels) {
      if (X.Name->C.size() || !Global(X.Env, "builtins")) {
        if (X.Name->C.size())
          Kinds.erase(DK::DK_PrimOpUnknown); // spelled as a string
        continue;
      }
      if (ref::Scope::among(ref::Scope::visible(), X.Name->S)) {
        if (Global(X.Env, X.Name->S.c_str()) && X.Node->C.size() == 2) {
          symx_reach("removable");
          Add(DK::DK_PrimOpRemovablePrefix, X.Node->C[0]->B,
                          X.Node->C[0]->E);
        }
      } else if (!ref::Scope::among(ref::Scope::visible(), "__" + X.Name->S) &&
                 !ref::Scope::among(ref::Scope::constants(), X.Name->S) &&
                 !ref::Scope::among(ref::Scope::constants(),
                                    "__" + X.Name->S)) {
        symx_reach("unknown-builtin");
        Add(DK::DK_PrimOpUnknown, X.Name->B, X.Name->E);
      }
    }
    for (auto &[L, Env] : Sc.Lets) {
      if (!Global(Env, "builtins"))
        continue;
      for (ref::Attr &X : L->Static)
        if (X.Kind == 'N' && ref::Scope::isVar(X.Src, "builtins") &&
            ref::Scope::among(ref::Scope::visible(), X.Name) &&
            Global(Env->Up, X.Name.c_str()))
          Add(DK::DK_PrimOpRemovablePrefix, X.Key->B, X.Key->E);
    }
  }
  for (const auto &X : D)
    if (Kinds.count(X.kind()))
      Got.push_back({(int)X.kind(), (int)X.range().lCur().offset(),
                     (int)X.range().rCur().offset()});
  Want.erase(std::remove_if(Want.begin(), Want.end(),
                            [&](const Rep &X) { return !Kinds.count(X[0]); }),
             Want.end());
  size_t NGot = Got.size();
  Want = uniq(Want);
  Got = uniq(Got);
  CHECK(NGot == Got.size(), "reports", "something is reported twice");
  for (const Rep &X : Want)
    CHECK(std::binary_search(Got.begin(), Got.end(), X), "reports",
          Diagnostic::sname((Diagnostic::DiagnosticKind)X[0]));
  for (const Rep &X : Got)
    CHECK(std::binary_search(Want.begin(), Want.end(), X), "false-reports",
          Diagnostic::sname((Diagnostic::DiagnosticKind)X[0]));
}
