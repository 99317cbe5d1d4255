// nixf's syntax tree in the form of ref.h, and the comparison of the two.
#pragma once
#include "ref.h"
#include <nixf/Basic/Diagnostic.h>
#include <nixf/Basic/Nodes/Attrs.h>
#include <nixf/Basic/Nodes/Expr.h>
#include <nixf/Basic/Nodes/Lambda.h>
#include <nixf/Basic/Nodes/Op.h>
#include <nixf/Basic/Nodes/Simple.h>
#include <nixf/Parse/Parser.h>

namespace ref {

struct Dump {
  static int opOf(nixf::tok::TokenKind K, bool Unary) {
    using namespace nixf::tok;
    switch (K) {
    case tok_op_pipe_from:
      return O_PIPEL;
    case tok_op_pipe_into:
      return O_PIPER;
    case tok_op_impl:
      return O_IMPL;
    case tok_op_or:
      return O_OR;
    case tok_op_and:
      return O_AND;
    case tok_op_eq:
      return O_EQ;
    case tok_op_neq:
      return O_NE;
    case tok_op_lt:
      return O_LT;
    case tok_op_gt:
      return O_GT;
    case tok_op_le:
      return O_LE;
    case tok_op_ge:
      return O_GE;
    case tok_op_update:
      return O_UPD;
    case tok_op_not:
      return O_NOT;
    case tok_op_add:
      return O_ADD;
    case tok_op_negate:
      return O_SUB;
    case tok_op_mul:
      return O_MUL;
    case tok_op_div:
      return O_DIV;
    case tok_op_concat:
      return O_CAT;
    default:
      return -1;
    }
  }
  static RN *m(char K, const nixf::Node &N) {
    return mk(K, (int)N.lCur().offset(), (int)N.rCur().offset());
  }
  static void parts(RN *R, const nixf::InterpolatedParts &P) {
    for (const auto &F : P.fragments()) {
      if (F.kind() == nixf::InterpolablePart::SPK_Escaped) {
        if (F.escaped().empty())
          continue;
        if (R->C.empty() || R->C.back()->K != '"')
          R->add(mk('"', 0, 0));
        R->C.back()->S += F.escaped();
      } else {
        RN *I = m('$', F.interpolation());
        I->add(node(F.interpolation().expr()));
        R->add(I);
      }
    }
  }
  static RN *attrName(const nixf::AttrName &A) {
    RN *R = m('N', A);
    switch (A.kind()) {
    case nixf::AttrName::ANK_ID:
      R->S = A.id()->name();
      break;
    case nixf::AttrName::ANK_String:
      R->add(node(&A.string()));
      break;
    case nixf::AttrName::ANK_Interpolation: {
      RN *I = m('$', A.interpolation());
      I->add(node(A.interpolation().expr()));
      R->add(I);
      break;
    }
    }
    return R;
  }
  static RN *attrPath(const nixf::AttrPath *P) {
    if (!P)
      return mk('!', 0, 0);
    RN *R = m('a', *P);
    for (const auto &N : P->names())
      R->add(N ? attrName(*N) : mk('!', 0, 0));
    return R;
  }
  static void binds(RN *R, const nixf::Binds *B) {
    if (!B)
      return;
    for (const auto &N : B->bindings()) {
      if (N->kind() == nixf::Node::NK_Binding) {
        const auto &X = static_cast<const nixf::Binding &>(*N);
        RN *Y = m('=', X);
        Y->add(attrPath(&X.path()));
        Y->add(node(X.value().get()));
        R->add(Y);
      } else {
        const auto &X = static_cast<const nixf::Inherit &>(*N);
        RN *Y = m('n', X);
        if (X.expr()) {
          Y->V = 1;
          Y->add(node(X.expr().get()));
        }
        for (const auto &A : X.names())
          Y->add(attrName(*A));
        R->add(Y);
      }
    }
  }
  static RN *node(const nixf::Node *P) {
    using nixf::Node;
    if (!P)
      return mk('!', 0, 0);
    const Node &N = *P;
    switch (N.kind()) {
    case Node::NK_ExprVar: {
      RN *R = m('v', N);
      R->S = static_cast<const nixf::ExprVar &>(N).id().name();
      return R;
    }
    case Node::NK_ExprInt: {
      RN *R = m('i', N);
      R->V = (uint64_t)static_cast<const nixf::ExprInt &>(N).value();
      return R;
    }
    case Node::NK_ExprFloat: {
      RN *R = m('f', N);
      double D = static_cast<const nixf::ExprFloat &>(N).value();
      memcpy(&R->V, &D, 8);
      return R;
    }
    case Node::NK_ExprString: {
      RN *R = m('s', N);
      parts(R, static_cast<const nixf::ExprString &>(N).parts());
      return R;
    }
    case Node::NK_ExprPath: {
      RN *R = m('p', N);
      parts(R, static_cast<const nixf::ExprPath &>(N).parts());
      return R;
    }
    case Node::NK_ExprSPath: {
      RN *R = m('S', N);
      R->S = static_cast<const nixf::ExprSPath &>(N).text();
      return R;
    }
    case Node::NK_ExprParen:
      return m('(', N)->add(
          node(static_cast<const nixf::ExprParen &>(N).expr()));
    case Node::NK_ExprAttrs: {
      const auto &A = static_cast<const nixf::ExprAttrs &>(N);
      RN *R = m('{', N);
      R->V = A.isRecursive();
      R->X = &A;
      binds(R, A.binds());
      return R;
    }
    case Node::NK_ExprList: {
      RN *R = m('[', N);
      for (const auto &E : static_cast<const nixf::ExprList &>(N).elements())
        R->add(node(E.get()));
      return R;
    }
    case Node::NK_ExprCall: {
      const auto &A = static_cast<const nixf::ExprCall &>(N);
      RN *R = m('c', N);
      R->add(node(&A.fn()));
      for (const auto &E : A.args())
        R->add(node(E.get()));
      return R;
    }
    case Node::NK_ExprSelect: {
      const auto &A = static_cast<const nixf::ExprSelect &>(N);
      RN *R = m('.', N);
      R->add(node(&A.expr()));
      R->add(attrPath(A.path()));
      if (A.defaultExpr())
        R->add(node(A.defaultExpr()));
      return R;
    }
    case Node::NK_ExprOpHasAttr: {
      const auto &A = static_cast<const nixf::ExprOpHasAttr &>(N);
      return m('?', N)->add(node(A.expr()))->add(attrPath(A.attrpath()));
    }
    case Node::NK_ExprBinOp: {
      const auto &A = static_cast<const nixf::ExprBinOp &>(N);
      RN *R = m('b', N);
      R->V = opOf(A.op().op(), false);
      return R->add(node(A.lhs()))->add(node(A.rhs()));
    }
    case Node::NK_ExprUnaryOp: {
      const auto &A = static_cast<const nixf::ExprUnaryOp &>(N);
      RN *R = m('1', N);
      R->V = opOf(A.op().op(), true);
      return R->add(node(A.expr()));
    }
    case Node::NK_ExprLambda: {
      const auto &A = static_cast<const nixf::ExprLambda &>(N);
      RN *R = m('\\', N);
      if (A.arg()) {
        if (A.arg()->id()) {
          RN *I = m('N', *A.arg()->id());
          I->S = A.arg()->id()->name();
          R->add(I);
        }
        if (A.arg()->formals()) {
          RN *F = m('F', *A.arg()->formals());
          for (const auto &X : A.arg()->formals()->members()) {
            if (!X->isEllipsis() && !X->id())
              continue; // trailing comma
            // a formal's range begins at its comma
            RN *O = m('o', *X);
            if (X->isEllipsis()) {
              O->V = 1;
              O->B = (int)X->ellipsis().lCur().offset();
            } else {
              RN *I = m('N', *X->id());
              I->S = X->id()->name();
              O->B = I->B;
              O->add(I);
              if (X->defaultExpr())
                O->add(node(X->defaultExpr()));
            }
            F->add(O);
          }
          R->add(F);
        }
      }
      R->add(node(A.body()));
      return R;
    }
    case Node::NK_ExprIf: {
      const auto &A = static_cast<const nixf::ExprIf &>(N);
      return m('I', N)
          ->add(node(A.cond()))
          ->add(node(A.then()))
          ->add(node(A.elseExpr()));
    }
    case Node::NK_ExprAssert: {
      const auto &A = static_cast<const nixf::ExprAssert &>(N);
      return m('A', N)->add(node(A.cond()))->add(node(A.value()));
    }
    case Node::NK_ExprWith: {
      const auto &A = static_cast<const nixf::ExprWith &>(N);
      return m('W', N)->add(node(A.with()))->add(node(A.expr()));
    }
    case Node::NK_ExprLet: {
      const auto &A = static_cast<const nixf::ExprLet &>(N);
      RN *R = m('L', N);
      RN *B = mk('{', 0, 0);
      B->X = A.attrs();
      binds(B, A.binds());
      R->add(B);
      R->add(node(A.expr()));
      return R;
    }
    case Node::NK_ExprLegacyLet: {
      const auto &A = static_cast<const nixf::ExprLegacyLet &>(N);
      RN *R = m('l', N);
      binds(R, A.attrs() ? A.attrs()->binds() : nullptr);
      return R;
    }
    default:
      return mk('X', 0, 0);
    }
  }
};

struct Cmp {
  const char *Why = nullptr;      // structure differs
  const char *WhyRange = nullptr; // source ranges differ
  const char *WhyLen = nullptr;   // lengths of names or literals differ
  uint64_t D = 0;  // symbolic difference of names and literals
  uint64_t DI = 0; // of integers
  uint64_t DF = 0; // of floats
  std::vector<std::pair<const RN *, const RN *>> Sets;
  bool fail(const char *W) {
    if (!Why)
      Why = W;
    return false;
  }
  bool eq(const RN *A, const RN *N) {
    if (A->K != N->K)
      return fail("kind of node differs");
    if (A->C.size() != N->C.size())
      return fail("number of children differs");
    if (A->K == '{')
      Sets.push_back({A, N});
    if (A->K != '"' && A->B != A->E && !(A->K == '{' && N->E == 0) &&
        (A->B != N->B || A->E != N->E))
      if (!WhyRange)
        WhyRange = A->K == '{'   ? "source range of an attribute set"
                   : A->K == '\\' ? "source range of a function"
                   : A->K == 'c' ? "source range of a call"
                   : A->K == 'b' ? "source range of an operation"
                                 : "source range of a node";
    if ((A->K == 'b' || A->K == '1' || A->K == 'o' || A->K == '{' ||
         A->K == 'n') &&
        A->V != N->V)
      return fail("operator or modifier differs");
    if (A->K == 'i')
      DI |= A->V ^ N->V;
    if (A->K == 'f')
      DF |= A->V ^ N->V;
    if (A->K == 'v' || A->K == '"' || A->K == 'N' || A->K == 'S') {
      if (A->S.size() != N->S.size()) {
        if (!WhyLen)
          WhyLen = "length of a name or literal differs";
      } else
        for (size_t I = 0; I < A->S.size(); I++)
          D |= (unsigned char)A->S[I] ^ (unsigned char)N->S[I];
    }
    for (size_t I = 0; I < A->C.size(); I++)
      if (!eq(A->C[I], N->C[I]))
        return false;
    return true;
  }
};

inline bool isError(const nixf::Diagnostic &D) {
  auto S = nixf::Diagnostic::severity(D.kind());
  return S == nixf::Diagnostic::DS_Fatal || S == nixf::Diagnostic::DS_Error;
}
inline bool anyError(const std::vector<nixf::Diagnostic> &Ds) {
  for (const auto &D : Ds)
    if (isError(D))
      return true;
  return false;
}

} // namespace ref
