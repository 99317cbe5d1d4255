// Source positions of all nodes, diagnostics, notes and edits, for any text.
#include "tpl.h"
#include "walk.h"
#include <nixf/Parse/Parser.h>

extern "C" void symx_harness() {
  Tpl T;
  std::string_view Src = T.make(symx_param_str("tpl", "``"));
  std::vector<nixf::Diagnostic> D;
  auto A = nixf::parse(Src, D);
  PosCheck P(Src);
  if (A) {
    P.node(A.get(), nullptr);
    symx_reach("tree");
  }
  CHECK(P.Order, "node-order", "a node begins after its end or lies outside");
  CHECK(P.D == 0, "node-linecol", "line or column of a node is wrong");
  CHECK(P.Nest, "node-nesting", "a node reaches outside of its parent");
  PosCheck Q(Src);
  for (const auto &X : D)
    Q.diag(X);
  if (!D.empty())
    symx_reach("diagnostic");
  CHECK(Q.Order, "diag-order", "a diagnostic lies outside of the text");
  CHECK(Q.D == 0, "diag-linecol", "line or column of a diagnostic is wrong");
}
