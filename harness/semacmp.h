// nixf's view of bindings and formals against sema.h.
#pragma once
#include "dump.h"
#include "sema.h"
#include <algorithm>
#include <array>

namespace ref {

struct SemaCmp {
  Sema &S;
  const char *Why = nullptr;
  explicit SemaCmp(Sema &S) : S(S) {}
  bool fail(const char *W) {
    if (!Why)
      Why = W;
    return false;
  }
  static bool at(const nixf::Node &N, const RN *R) {
    return (int)N.lCur().offset() == R->B && (int)N.rCur().offset() == R->E;
  }
  bool attr(const Attr &A, const nixf::Attribute &X, int Dep) {
    using AK = nixf::Attribute::AttributeKind;
    if (!at(X.key(), A.Key))
      return fail("an attribute is recorded under another name's position");
    AK K = A.Kind == '=' ? AK::Plain
                         : A.Kind == 'n' ? AK::Inherit : AK::InheritFrom;
    if (X.kind() != K)
      return fail("an attribute is recorded as defined in another way");
    if (!X.value())
      return fail("an attribute lost its value");
    if (A.Value && !at(*X.value(), A.Value))
      return fail("an attribute has another binding's value");
    if (A.Set) {
      if (X.value()->kind() != nixf::Node::NK_ExprAttrs)
        return fail("a nested attribute set is missing");
      const auto &E = static_cast<const nixf::ExprAttrs &>(*X.value());
      return set(A.Set, E.sema(), Dep + 1);
    }
    return true;
  }
  bool set(const AttrSet *A, const nixf::SemaAttrs &X, int Dep = 0) {
    if (Dep > 20)
      return true;
    if (A->Rec != X.isRecursive())
      return fail("recursiveness of an attribute set differs");
    if (A->Static.size() != X.staticAttrs().size() ||
        A->Dynamic.size() != X.dynamicAttrs().size())
      return fail("number of attributes differs");
    for (const Attr &Y : A->Static) {
      bool Found = false;
      for (const auto &[N, V] : X.staticAttrs())
        if (sameBytes(N, Y.Name)) {
          Found = true;
          if (!attr(Y, V, Dep))
            return false;
          break;
        }
      if (!Found)
        return fail("an attribute is missing");
    }
    for (size_t I = 0; I < A->Dynamic.size(); I++)
      if (!attr(A->Dynamic[I], X.dynamicAttrs()[I], Dep))
        return false;
    return true;
  }
  bool sets(const std::vector<std::pair<const RN *, const RN *>> &Pairs) {
    for (auto [R, N] : Pairs) {
      if (!N->X)
        continue;
      const auto &E = *static_cast<const nixf::ExprAttrs *>(N->X);
      if (!set(S.Sets[const_cast<RN *>(R)], E.sema()))
        return false;
    }
    return true;
  }
  using V4 = std::vector<std::array<int, 4>>;
  static V4 of(const std::vector<Dup> &D, bool Prev = true) {
    V4 R;
    for (auto &X : D)
      R.push_back({X.B, X.E, Prev ? X.PB : 0, Prev ? X.PE : 0});
    std::sort(R.begin(), R.end());
    return R;
  }
  static V4 of(const std::vector<nixf::Diagnostic> &D,
               nixf::Diagnostic::DiagnosticKind K, bool Prev = true) {
    V4 R;
    for (auto &X : D) {
      if (X.kind() != K)
        continue;
      std::array<int, 4> Y = {(int)X.range().lCur().offset(),
                              (int)X.range().rCur().offset(), 0, 0};
      if (Prev) {
        if (X.notes().size() != 1)
          Y[2] = Y[3] = -1;
        else {
          Y[2] = (int)X.notes()[0].range().lCur().offset();
          Y[3] = (int)X.notes()[0].range().rCur().offset();
        }
      }
      R.push_back(Y);
    }
    std::sort(R.begin(), R.end());
    return R;
  }
  bool attrDiags(const std::vector<nixf::Diagnostic> &D) {
    using DK = nixf::Diagnostic;
    if (of(S.Dups) != of(D, DK::DK_DuplicatedAttrName))
      return fail("duplicated attributes are not reported exactly");
    if (S.NRecMismatch != (int)of(D, DK::DK_MergeDiffRec, false).size())
      return fail("merging a recursive with a plain set is not reported "
                  "exactly");
    if (S.LetDynamic != !of(D, DK::DK_LetDynamic, false).empty())
      return fail("dynamic let bindings are not reported exactly");
    return true;
  }
  bool formalDiags(const std::vector<nixf::Diagnostic> &D) {
    using DK = nixf::Diagnostic;
    if (of(S.FormalDups) != of(D, DK::DK_DuplicatedFormal))
      return fail("duplicated formals are not reported exactly");
    if (of(S.ArgDups, false) != of(D, DK::DK_DuplicatedFormalToArg, false))
      return fail("an argument named like a formal is not reported exactly");
    return true;
  }
};

} // namespace ref
