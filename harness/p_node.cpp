// Which node a selection lies in, and the way from a node to the root.
//   tpl: the text; what: 1 parent map (any text)  2 descent (valid programs)
#include "ref.h"
#include "dump.h"
#include "tpl.h"
#include "walk.h"
#include <nixf/Parse/Parser.h>
#include <nixf/Sema/ParentMap.h>
#include <set>

using namespace nixf;
using ref::RN;

namespace {
struct Walk {
bool Tree = true, Parent = true, Up = true;
std::vector<const Node *> Path;
std::set<const Node *> Seen;

void walk(const Node *N, const ParentMapAnalysis &PM) {
  if (!Seen.insert(N).second) {
    // the set of bindings of a let refers to the keyword of the let
    Tree &= N->kind() == Node::NK_Misc && Path.size() > 1 &&
            (Path[Path.size() - 2]->kind() == Node::NK_ExprLet ||
             Path[Path.size() - 2]->kind() == Node::NK_ExprLegacyLet);
    return;
  }
  const Node *P = Path.empty() ? N : Path.back();
  Parent &= PM.query(*N) == P && PM.isRoot(*N) == Path.empty();
  Path.push_back(N);
  // nearest expression, and nearest node of every kind on the way
  const Node *E = nullptr;
  std::set<int> Kinds;
  for (size_t I = Path.size(); I-- > 0;) {
    const Node *A = Path[I];
    if (!E && A->kind() > Node::NK_BeginExpr && A->kind() < Node::NK_EndExpr)
      E = A;
    if (Kinds.insert(A->kind()).second)
      Up &= PM.upTo(*N, A->kind()) == A;
  }
  for (int K = 0; K < Node::NK_EndExpr; K++)
    if (!Kinds.count(K))
      Up &= PM.upTo(*N, (Node::NodeKind)K) == nullptr;
  Up &= PM.upExpr(*N) == E;
  for (const Node *C : N->children())
    if (C)
      walk(C, PM);
  Path.pop_back();
}
};

void exprs(RN *N, std::vector<RN *> &Out) {
  if (!strchr("=naN\"$Fo", N->K))
    Out.push_back(N);
  for (RN *C : N->C)
    exprs(C, Out);
}
} // namespace

extern "C" void symx_harness() {
  Tpl T;
  std::string_view Src = T.make(symx_param_str("tpl", "``"));
  int What = symx_param("what", 3);
  std::vector<Diagnostic> D;
  auto A = parse(Src, D);
  if (!A)
    return;
  ParentMapAnalysis PM;
  PM.runOnAST(*A);
  Walk W;
  W.walk(A.get(), PM);
  symx_digest_u64(W.Seen.size());
  if (What & 1) {
    symx_reach("parents");
    CHECK(W.Tree, "tree", "a node has two places in the tree");
    CHECK(W.Parent, "parent", "the parent of a node is not the node it is in");
    CHECK(W.Up, "up", "the enclosing node found is not the nearest one");
  }
  if (!(What & 2) || ref::anyError(D))
    return;
  ref::Ref R(Src);
  RN *E = R.parse();
  if (R.Bad || R.Unspec)
    return;
  std::vector<RN *> Es;
  exprs(E, Es);
  Lines L(Src, true);
  symx_reach("selection");
  for (size_t P = 0; P <= Src.size(); P++)
    for (size_t Q = P; Q <= Src.size(); Q++) {
      const Node *N = A->descend(
          {Position(L.L[P], L.C[P]), Position(L.L[Q], L.C[Q])});
      auto in = [&](size_t B, size_t X) { return B <= P && Q <= X; };
      bool Want = in(E->B, E->E);
      CHECK(Want == !!N, "descend", "a selection is found, or not, wrongly");
      if (!N || !Want)
        continue;
      symx_digest_u64((int)N->kind());
      CHECK(in(N->lCur().offset(), N->rCur().offset()), "descend",
            "the node found does not contain the selection");
      const Node *U = PM.upExpr(*N);
      CHECK(U != nullptr, "descend", "no expression contains the selection");
      if (!U)
        continue;
      size_t B = U->lCur().offset(), X = U->rCur().offset();
      bool Less = false;
      for (RN *Y : Es)
        // a bare cursor at an edge may belong to either side
        Less |= in(Y->B, Y->E) &&
                (P < Q || ((size_t)Y->B < P && Q < (size_t)Y->E)) && B <= (size_t)Y->B && (size_t)Y->E <= X &&
                (B != (size_t)Y->B || X != (size_t)Y->E);
      CHECK(!Less, "descend", "a smaller expression contains the selection");
    }
}
