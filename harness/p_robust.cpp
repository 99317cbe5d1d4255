// Everything libnixf does with a text: parsing, diagnostics, parent map,
// descent, variable lookup. Memory errors, failed assertions, exceptions that
// escape and paths that do not end are reported by the engine.
//   tpl: the text; sema=0: parsing only
#include "tpl.h"
#include "walk.h"
#include <nixf/Parse/Parser.h>
#include <nixf/Sema/ParentMap.h>
#include <nixf/Sema/VariableLookup.h>

static void visit(const nixf::Node *N, const nixf::ParentMapAnalysis &PM,
                  const nixf::VariableLookupAnalysis &V, std::string_view Src,
                  unsigned &Count) {
  Count++;
  symx_digest_u64((unsigned)N->kind());
  symx_digest_u64(N->src(Src).size());
  (void)PM.query(*N);
  (void)PM.upExpr(*N);
  (void)PM.upTo(*N, nixf::Node::NK_ExprAttrs);
  (void)V.env(N);
  (void)V.toDef(*N);
  if (N->kind() == nixf::Node::NK_ExprVar) {
    const auto &X = static_cast<const nixf::ExprVar &>(*N);
    symx_digest_u64((unsigned)V.query(X).Kind);
    symx_digest_u64(V.getWithScopes(X).size());
  }
  for (const nixf::Node *C : N->children())
    if (C)
      visit(C, PM, V, Src, Count);
}

extern "C" void symx_harness() {
  Tpl T;
  std::string_view Src = T.make(symx_param_str("tpl", "``"));
  std::vector<nixf::Diagnostic> D;
  auto A = nixf::parse(Src, D);
  symx_digest_u64(D.size());
  symx_digest_u64(A ? (int)A->kind() : -1);
  symx_reach(A ? "tree" : "no-tree");
  if (!symx_param("sema", 1))
    return;
  if (A) {
    nixf::VariableLookupAnalysis V(D);
    V.runOnAST(*A);
    nixf::ParentMapAnalysis PM;
    PM.runOnAST(*A);
    unsigned Count = 0;
    visit(A.get(), PM, V, Src, Count);
    symx_digest_u64(Count);
    Lines L(Src, true);
    for (size_t I = 0; I <= Src.size(); I++) {
      nixf::Position P(L.L[I], L.C[I]);
      const nixf::Node *At = A->descend({P, P});
      symx_digest_u64(At ? (int)At->kind() : -1);
    }
    symx_reach("analysed");
  }
  for (const auto &X : D) {
    symx_digest_u64((unsigned)X.kind());
    CHECK(placeholders(X.message()) <= X.args().size(), "arguments",
          "a diagnostic lacks an argument its message refers to");
    for (const auto &Nt : X.notes())
      CHECK(placeholders(Nt.message()) <= Nt.args().size(), "arguments",
            "a note lacks an argument its message refers to");
    (void)X.sname();
    (void)nixf::Diagnostic::severity(X.kind());
  }
}
