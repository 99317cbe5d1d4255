// Every request, at every position of a text: one answer, and the server goes
// on, whatever its workers answer.
//   tpl: the text
//   op: 1 definition  2 references, highlight, rename  4 completion  8 hover
//       16 symbols, folding, tokens, links  32 inlay hints  64 code actions
//       128 resolving
//   worker: 1 the workers live, they answer or fail
#include "ctl.h"
#include "edits.h"
#include "tpl.h"

using namespace lspserver;
using nixd::Controller;

namespace {

std::string str(const char *What) {
  static const char *const L[] = {"", "a", "a:1", "a:b", "/x/y.nix:7"};
  return L[choose(5, What)];
}
std::optional<std::string> opt(const char *What) {
  if (choose(2, What))
    return std::nullopt;
  return "s";
}
std::optional<nixd::AttrPathInfoResponse> info() {
  nixd::AttrPathInfoResponse R;
  R.Meta.Type = 0;
  switch (choose(4, "reply")) {
  case 0:
    return std::nullopt;
  case 1:
    break;
  case 2:
    R.PackageDesc.Position = str("position");
    R.PackageDesc.Name = "n";
    R.PackageDesc.Version = "1";
    R.PackageDesc.Description = "d";
    break;
  case 3:
    R.Meta.Location = Location{Ctl::uri("/l.nix"), {{0, 0}, {0, 0}}};
    R.ValueDesc = nixd::ValueDescription{"doc", 1, {"x"}};
  }
  return R;
}

std::optional<nixd::OptionDescription> option() {
  if (!choose(2, "reply"))
    return std::nullopt;
  nixd::OptionDescription D;
  if (choose(2, "option")) {
    D.Type = nixd::OptionType{opt("type"), "t"};
    D.Declarations.push_back({Ctl::uri("/o.nix"), {{0, 0}, {0, 0}}});
    D.Default = "d$}";
    D.Example = "e";
  }
  return D;
}

// Workers decide once per run what they answer to each kind of question.
struct Workers {
  std::optional<nixd::AttrPathInfoResponse> I = info();
  std::optional<nixd::OptionDescription> O = option();
  int Names = (int)choose(3, "names");
  nixd::AttrSetClient *make() {
    auto *C = new nixd::AttrSetClient(nullptr, nullptr);
    C->AttrPathInfo = [this](const nixd::AttrPathInfoParams &,
                             Callback<nixd::AttrPathInfoResponse> R) {
      if (I)
        R(*I);
      else
        R(error("no"));
    };
    C->AttrPathComplete = [this](const nixd::AttrPathCompleteParams &P,
                                 Callback<nixd::AttrPathCompleteResponse> R) {
      std::vector<std::string> L;
      if (Names == 1)
        L = {"aa", "b"};
      if (Names == 2)
        for (int K = 0; K < 31; K++)
          L.push_back(P.Prefix + "n");
      if (Names || I)
        R(L);
      else
        R(error("no"));
    };
    C->OptionInfo = [this](const nixd::AttrPathInfoParams &,
                           Callback<nixd::OptionInfoResponse> R) {
      if (O)
        R(*O);
      else
        R(error("no"));
    };
    C->OptionComplete = [this](const nixd::AttrPathCompleteParams &,
                               Callback<nixd::OptionCompleteResponse> R) {
      if (!O)
        return R(error("no"));
      std::vector<nixd::OptionField> L{{"a", std::nullopt}, {"b", *O}};
      R(L);
    };
    return C;
  }
};

struct Within {
  std::string_view Src;
  void operator()(const Range &R) const {
    long B = offset(Src, R.start), E = offset(Src, R.end);
    CHECK(B >= 0 && B <= E, "range", "a range that is not in the text");
  }
};

} // namespace

extern "C" void symx_harness() {
  Tpl T;
  T.Hi = symx_param("hi", 0x7F);
  std::string_view Src = T.make(symx_param_str("tpl", "pkgs.a"));
  int Op = symx_param("op", 255);
  Ctl K;
  Workers *W = nullptr;
  if (symx_param("worker", 0)) {
    W = new Workers;
    nixd::Worker = W->make();
    nixd::OptionWorker = W->make();
  }
  K.C->Options["o"].reset(nixd::newProc());
  K.C->ShowDocument = [](const ShowDocumentParams &,
                         Callback<ShowDocumentResult> R) { R(error("no")); };
  K.open(Src);
  symx_reach("text");
  Within In{Src};
  bool F;
  TextDocumentPositionParams P;
  P.textDocument.uri = Ctl::uri();
  std::vector<Position> At;
  {
    Position X{0, 0};
    for (size_t I = 0; I <= Src.size(); I++) {
      unsigned char B = I < Src.size() ? Src[I] : 0;
      if ((B & 0xC0) != 0x80)
        At.push_back(X);
      if (B == '\n')
        X = {X.line + 1, 0};
      else if (B < 0x80 || B >= 0xC0)
        X.character += B >= 0xF0 ? 2 : 1;
    }
    // and where there is no text
    if (Op & 256)
      At.assign({{0, (int)Src.size() + 3}, {7, 0}, {7, 7}});
  }
  for (const Position &Pos : At) {
    P.position = Pos;
    if (Op & 1) {
      llvm::json::Value J = nullptr;
      ask(K.C, &Controller::onDefinition, P, J, F);
    }
    if (Op & 2) {
      std::vector<Location> L;
      ask(K.C, &Controller::onReferences, P, L, F);
      for (auto &X : L)
        In(X.range);
      std::vector<DocumentHighlight> H;
      ask(K.C, &Controller::onDocumentHighlight, P, H, F);
      for (auto &X : H)
        In(X.range);
      std::optional<Range> R;
      ask(K.C, &Controller::onPrepareRename, P, R, F);
      RenameParams N;
      N.textDocument.uri = Ctl::uri();
      N.position = Pos;
      N.newName = "zz";
      WorkspaceEdit E;
      ask(K.C, &Controller::onRename, N, E, F);
    }
    if (Op & 4) {
      CompletionParams C;
      C.textDocument = P.textDocument;
      C.position = Pos;
      CompletionList L;
      ask(K.C, &Controller::onCompletion, C, L, F);
      CHECK(L.items.size() <= 30, "size", "too many completions");
      for (auto &X : L.items) {
        if (X.textEdit)
          In(X.textEdit->range);
        if (Op & 128) {
          CompletionItem Y;
          ask(K.C, &Controller::onCompletionItemResolve, X, Y, F);
        }
      }
    }
    if (Op & 8) {
      std::optional<Hover> H;
      ask(K.C, &Controller::onHover, P, H, F);
      if (H && H->range)
        In(*H->range);
    }
    if (Op & 64)
      for (const Position &To : At) {
        if (To < Pos)
          continue;
        CodeActionParams A;
        A.textDocument.uri = Ctl::uri();
        A.range = {Pos, To};
        std::vector<CodeAction> L;
        ask(K.C, &Controller::onCodeAction, A, L, F);
        if (Op & 128)
          for (CodeAction &X : L) {
            CodeAction Y;
            ask(K.C, &Controller::onCodeActionResolve, X, Y, F);
          }
      }
  }
  if (Op & 16) {
    DocumentSymbolParams D;
    D.textDocument.uri = Ctl::uri();
    std::vector<DocumentSymbol> S;
    ask(K.C, &Controller::onDocumentSymbol, D, S, F);
    FoldingRangeParams FP;
    FP.textDocument.uri = Ctl::uri();
    std::vector<FoldingRange> FR;
    ask(K.C, &Controller::onFoldingRange, FP, FR, F);
    SemanticTokensParams SP;
    SP.textDocument.uri = Ctl::uri();
    SemanticTokens ST;
    ask(K.C, &Controller::onSemanticTokens, SP, ST, F);
    DocumentLinkParams LP;
    LP.textDocument.uri = Ctl::uri();
    std::vector<DocumentLink> DL;
    ask(K.C, &Controller::onDocumentLink, LP, DL, F);
    for (auto &X : DL)
      In(X.range);
  }
  if (Op & 32) {
    InlayHintsParams I;
    I.textDocument.uri = Ctl::uri();
    std::vector<InlayHint> H;
    ask(K.C, &Controller::onInlayHint, I, H, F);
    for (auto &X : H)
      In({X.position, X.position});
  }
}
