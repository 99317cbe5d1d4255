// Agreement of nixf::parse with the reference reader.
//   tpl: the text; what: which disagreements count
//     1 acceptance   2 structure    4 source ranges   8 names and contents
//     16 integers    32 floats      64 attributes of sets
//     128 reports on attributes     256 reports on formals
#include "semacmp.h"
#include "tpl.h"

extern "C" void symx_harness() {
  Tpl T;
  std::string_view Src = T.make(symx_param_str("tpl", "``"));
  int What = symx_param("what", 1 | 2);
  ref::Ref R(Src);
  ref::RN *E = R.parse();
  if (R.Unspec)
    symx_stop();
  ref::Sema S;
  if (!R.Bad) {
    S.walk(E);
    if (S.Unspec)
      symx_stop();
  }
  std::vector<nixf::Diagnostic> D;
  auto A = nixf::parse(Src, D);
  bool Err = ref::anyError(D);
  symx_digest_u64(Err);
  symx_digest_u64(D.size());
  if (R.Bad || S.Bad) {
    symx_reach("rejected");
    if (What & 1)
      CHECK(Err, "accepts", "text that is not a Nix expression gets no error");
  } else {
    symx_reach("accepted");
    if (What & 1)
      CHECK(!Err, "rejects", "a valid Nix expression is reported as an error");
  }
  if (R.Bad)
    return;
  ref::SemaCmp SC(S);
  if (What & 128) {
    CHECK(SC.attrDiags(D), "attr-reports", SC.Why ? SC.Why : "");
    if (!S.Dups.empty())
      symx_reach("duplicate-attribute");
    if (S.RecMismatch)
      symx_reach("rec-mismatch");
    if (S.LetDynamic)
      symx_reach("dynamic-let");
  }
  if (What & 256) {
    CHECK(SC.formalDiags(D), "formal-reports", SC.Why ? SC.Why : "");
    if (!S.FormalDups.empty())
      symx_reach("duplicate-formal");
    if (!S.ArgDups.empty())
      symx_reach("argument-is-formal");
  }
  if (S.Bad || Err)
    return;
  if (!A) {
    if (What & 3)
      CHECK(false, "no-tree", "a valid Nix expression yields no tree");
    return;
  }
  ref::Cmp C;
  ref::RN *N = ref::Dump::node(A.get());
  bool Ok = C.eq(E, N);
  if (!Ok && R.PipeChain && (What & 2)) {
    // associativity of pipes: the listed finding is exactly this reading
    ref::Ref R2(Src);
    R2.SwapPipes = true;
    ref::RN *E2 = R2.parse();
    ref::Cmp C2;
    if (C2.eq(E2, N) && (C2.D | C2.DI | C2.DF) == 0)
      symx_known("pipe-associativity");
  }
  if (What & 2)
    CHECK(Ok, "tree", C.Why ? C.Why : "");
  if (!Ok)
    return;
  symx_reach("same-tree");
  if (What & 4)
    CHECK(!C.WhyRange, "range", C.WhyRange ? C.WhyRange : "");
  if (What & 8) {
    CHECK(!C.WhyLen, "content", C.WhyLen ? C.WhyLen : "");
    CHECK(C.D == 0, "content", "a name or the text of a literal differs");
  }
  if (What & 16)
    CHECK(C.DI == 0, "integer", "the value of an integer differs");
  if (What & 32)
    CHECK(C.DF == 0, "float", "the value of a float differs");
  if (What & 64) {
    CHECK(SC.sets(C.Sets), "attributes", SC.Why ? SC.Why : "");
    if (!C.Sets.empty())
      symx_reach("set");
  }
}
