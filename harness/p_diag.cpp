// What the server publishes about open documents, and its configuration.
//   what: 1 one document (tpl), then a configuration, then closing it
//         2 histories of n messages on two documents, configurations among
//           them; the tasks that apply these run at any lock, in any order
//         4 configurations of all shapes
#include "ctl.h"
#include "tpl.h"
#include "utf.h"
#include "nixf/Parse/Parser.h"
#include <map>
#include <set>

using namespace lspserver;
using nixd::Controller;

namespace {

struct Names {
  std::set<std::string> S;
  bool has(const char *N) const { return S.count(N); }
};

Position posOf(std::string_view S, size_t Off) {
  Position P{0, 0};
  for (size_t I = 0; I < Off && I < S.size(); I++) {
    unsigned char B = S[I];
    if (B == '\n') {
      P.line++;
      P.character = 0;
    } else if (B < 0x80 || B >= 0xC0)
      P.character += B >= 0xF0 ? 2 : 1;
  }
  return P;
}
Range rangeOf(std::string_view S, const nixf::LexerCursorRange &R) {
  return {posOf(S, R.lCur().offset()), posOf(S, R.rCur().offset())};
}

int severityOf(nixf::Diagnostic::DiagnosticKind K) {
  using D = nixf::Diagnostic;
  switch (D::severity(K)) {
  case D::DS_Fatal:
  case D::DS_Error:
    return 1;
  case D::DS_Warning:
    return 2;
  default:
    return D::severity(K) == D::DS_Info ? 3 : 4;
  }
}

std::vector<nixf::Diagnostic> *analyse(std::string_view Src) {
  auto *Ds = new std::vector<nixf::Diagnostic>;
  auto A = nixf::parse(Src, *Ds);
  if (A) {
    nixf::VariableLookupAnalysis V(*Ds);
    V.runOnAST(*A);
  }
  return Ds;
}

const char *sameTags(const std::vector<nixf::DiagnosticTag> &A,
                     const llvm::SmallVector<DiagnosticTag, 1> &B) {
  if (A.size() != B.size())
    return "tags differ";
  for (size_t I = 0; I < A.size(); I++)
    if ((A[I] == nixf::DiagnosticTag::Faded) !=
        (B[I] == DiagnosticTag::Unnecessary))
      return "tags differ";
  return "";
}

// Null: the published diagnostics are those of the text but for suppressed ones
const char *differs(const std::vector<nixf::Diagnostic> &Ds,
                    std::string_view Src, const Names &Off,
                    const PublishDiagnosticsParams &P) {
  std::string Uri = P.uri.uri();
  size_t I = 0;
  const auto &L = P.diagnostics;
  for (const nixf::Diagnostic &D : Ds) {
    if (Off.has(D.sname()))
      continue;
    if (I == L.size())
      return "a diagnostic is missing";
    const Diagnostic &X = L[I++];
    Range At = rangeOf(Src, D.range());
    if (X.code != D.sname())
      return "another diagnostic, or at another place in the list";
    if (!(X.range == At))
      return "the range of a diagnostic differs";
    if (X.severity != severityOf(D.kind()))
      return "the severity differs";
    std::string M = D.format();
    if (X.message.compare(0, M.size(), M) != 0)
      return "the message differs";
    M = X.message.substr(M.size());
    size_t F = D.fixes().size();
    if (M != (F == 0   ? ""
              : F == 1 ? " (fix available)"
                       : " (" + std::to_string(F) + " fixes available)"))
      return "the number of fixes differs";
    if (*sameTags(D.tags(), X.tags))
      return "tags differ";
    if (!X.relatedInformation || X.relatedInformation->size() != D.notes().size())
      return "related places are missing";
    for (size_t K = 0; K < D.notes().size(); K++) {
      const nixf::Note &N = D.notes()[K];
      const auto &R = (*X.relatedInformation)[K];
      if (R.location.uri.uri() != Uri ||
          !(R.location.range == rangeOf(Src, N.range())) ||
          R.message != N.format())
        return "a related place differs";
      if (I == L.size())
        return "a note is missing";
      const Diagnostic &Y = L[I++];
      if (!(Y.range == rangeOf(Src, N.range())) || Y.severity != 4 ||
          Y.code != N.sname() || Y.message != N.format() ||
          *sameTags(N.tags(), Y.tags))
        return "a note differs";
      if (!Y.relatedInformation || Y.relatedInformation->size() != 1 ||
          Y.relatedInformation->front().location.uri.uri() != Uri ||
          !(Y.relatedInformation->front().location.range == At))
        return "a note does not lead to its diagnostic";
    }
  }
  return I == L.size() ? "" : "there are other diagnostics";
}

// ---------------------------------------------------------------------------
struct Server : Ctl {
  std::vector<Callback<llvm::json::Value>> Asked;
  std::vector<symx_tasks::Task *> Tasks;
  Server() {
    C->ClientCaps.WorkspaceConfiguration = true;
    C->WorkspaceConfiguration = [this](const ConfigurationParams &,
                                       Callback<llvm::json::Value> R) {
      Asked.push_back(std::move(R));
    };
  }
  void reply(llvm::Expected<llvm::json::Value> V) {
    C->onDidChangeConfiguration({});
    CHECK(Asked.size() == 1, "config", "the configuration is not asked for");
    if (Asked.size() != 1)
      symx_stop();
    auto R = std::move(Asked.back());
    Asked.pop_back();
    R(std::move(V));
  }
  const PublishDiagnosticsParams *last(const std::string &Uri) {
    for (size_t I = Published.size(); I--;)
      if (Published[I].uri.uri() == Uri)
        return &Published[I];
    return nullptr;
  }
  void close(llvm::StringRef File) {
    DidCloseTextDocumentParams P;
    P.textDocument.uri = uri(File);
    C->onDocumentDidClose(P);
  }
};

llvm::json::Value suppress(const std::set<std::string> &S) {
  llvm::json::Array A;
  for (auto &N : S)
    A.push_back(N);
  return llvm::json::Array{llvm::json::Object{
      {"diagnostic", llvm::json::Object{{"suppress", std::move(A)}}}}};
}

void oneDocument() {
  Tpl T;
  T.Hi = symx_param("hi", 0x7F);
  std::string_view Src = T.make(symx_param_str("tpl", "let a=1;in 2"));
  auto *Ds = analyse(Src);
  auto &K = *new Server;
  K.open(Src);
  symx_reach("text");
  std::string U = Ctl::uri().uri();
  Names None, Off;
  CHECK(K.Published.size() == 1, "publish", "not published once");
  auto *P = K.last(U);
  CHECK(P, "publish", "nothing is published for the document");
  if (!P)
    return;
  const char *Why = differs(*Ds, Src, None, *P);
  CHECK(!*Why, "publish", Why);
  CHECK(P->version && *P->version == 1, "version", "another version");
  if (!Ds->empty()) {
    symx_reach("diagnostics");
    unsigned Which = choose(Ds->size() < 3 ? Ds->size() : 3, "which");
    Off.S = {(*Ds)[Which].sname(), "no-such-name"};
    // names that occur in other texts
    Off.S.insert("sema-unused-def-let");
  } else {
    Off.S = {"parse-redundant-paren"};
  }
  K.reply(suppress(Off.S));
  P = K.last(U);
  CHECK(P && K.Published.size() > 1, "publish", "nothing published again");
  Why = differs(*Ds, Src, Off, *P);
  CHECK(!*Why, "suppress", Why);
  K.reply(suppress({}));
  Why = differs(*Ds, Src, None, *K.last(U));
  CHECK(!*Why, "suppress", Why);
  K.close("/d/f.nix");
  CHECK(K.last(U)->diagnostics.empty(), "close",
        "diagnostics of a closed document are left");
}

// ---------------------------------------------------------------------------
// Histories. One of the two runs: the input thread, which handles messages, or
// a thread of the pool, which applies a configuration. At any lock the other
// one may go on.
struct World {
  Server *K;
  int Left;                  // messages to come
  bool Reverse;              // the pool runs first, messages arrive meanwhile
  int Depth = 0, Held = 0, Switches;
  long Version = 0;
  struct Doc {
    bool Open = false;
    std::string_view Src;
    std::vector<std::pair<long, std::string_view>> Versions;
  } D[2];
  std::vector<std::set<std::string>> Configs; // in order of their responses
  std::vector<int> Order;                     // tasks: indices into Configs
} *W;

const char *const Files[] = {"/d/f.nix", "/d/g.nix"};
const char *const Texts[] = {"x", "let a=1;in 2", " ", "(1", "y: \"é\"+q"};
const char *const Sup[] = {"sema-unused-def-let", "sema-undefined-variable",
                           "no-such-name"};

void didOpen(int F, std::string_view Src) {
  DidOpenTextDocumentParams P;
  P.textDocument.uri = Ctl::uri(Files[F]);
  P.textDocument.version = ++W->Version;
  P.textDocument.text = std::string(Src);
  W->D[F].Open = true;
  W->D[F].Src = Src;
  W->D[F].Versions.push_back({W->Version, Src});
  W->K->C->onDocumentDidOpen(P);
}

void message() {
  W->Left--;
  switch (choose(3, "message")) {
  case 0: { // a text: open or change
    int F = choose(2, "file");
    auto &D = W->D[F];
    std::string_view Src = Texts[choose(symx_param("texts", 3), "text")];
    if (!D.Open)
      return didOpen(F, Src);
    DidChangeTextDocumentParams P;
    P.textDocument.uri = Ctl::uri(Files[F]);
    P.textDocument.version = ++W->Version;
    TextDocumentContentChangeEvent E;
    E.text = std::string(Src);
    P.contentChanges.push_back(E);
    D.Src = Src;
    D.Versions.push_back({W->Version, Src});
    W->K->C->onDocumentDidChange(P);
    return;
  }
  case 1: {
    int F = choose(2, "file");
    if (!W->D[F].Open)
      symx_stop();
    W->D[F].Open = false;
    W->K->close(Files[F]);
    return;
  }
  default: {
    std::set<std::string> S;
    if (unsigned X = choose(3, "suppress"))
      S = {Sup[X - 1], Sup[2]};
    W->Configs.push_back(S);
    W->K->reply(suppress(S));
  }
  }
}

void runTask() {
  auto &Q = *symx_tasks::Queue;
  size_t I = choose(Q.size(), "task");
  auto *T = Q[I];
  Q.erase(Q.begin() + I);
  T->run();
}

} // namespace

extern "C" void symx_sched(int Point) {
  if (!W)
    return;
  if (Point == 2) {
    W->Held++;
    return;
  }
  if (Point == 1)
    W->Held--;
  // nothing else can go on while a lock is held: it is needed by all
  if (W->Held || W->Depth != 1 || !W->Switches)
    return;
  bool Can = W->Reverse ? W->Left > 0 : !symx_tasks::Queue->empty();
  if (!Can || !choose(2, "switch"))
    return;
  W->Switches--;
  symx_reach("switch");
  W->Depth++;
  if (W->Reverse)
    message();
  else
    runTask();
  W->Depth--;
}

namespace {

void histories() {
  auto &K = *new Server;
  symx_tasks::Queue = new std::vector<symx_tasks::Task *>;
  W = new World{&K, symx_param("n", 3), choose(2, "reverse") != 0};
  W->Switches = symx_param("switches", 1);
  // the first document is open
  didOpen(0, Texts[1]);
  while (W->Left > 0 || !symx_tasks::Queue->empty()) {
    bool Task = !symx_tasks::Queue->empty() &&
                (W->Left == 0 || (W->Reverse && choose(2, "turn")));
    W->Depth = Task == W->Reverse ? 1 : 2;
    if (Task)
      runTask();
    else
      message();
    W->Depth = 0;
  }
  World *End = W;
  W = nullptr;
  symx_reach("history");
  Names Off;
  if (!End->Configs.empty())
    Off.S = End->Configs.back();
  Names None;
  for (int F = 0; F < 2; F++) {
    auto &D = End->D[F];
    std::string U = Ctl::uri(Files[F]).uri();
    auto *P = K.last(U);
    if (!P) {
      CHECK(!D.Open, "publish", "nothing is published for a document");
      continue;
    }
    if (!D.Open) {
      CHECK(P->diagnostics.empty(), "close",
            "diagnostics of a closed document are left");
      continue;
    }
    const char *Why = differs(*analyse(D.Src), D.Src, Off, *P);
    CHECK(!*Why, "final", Why);
  }
  // what is said about a version is about its text
  long Seen[2] = {0, 0};
  for (auto &P : K.Published) {
    if (!P.version)
      continue;
    bool Found = false;
    for (int F = 0; F < 2; F++)
      if (P.uri.uri() == Ctl::uri(Files[F]).uri()) {
        CHECK(*P.version >= Seen[F], "version", "an older version later");
        Seen[F] = *P.version;
        for (auto &[V, Src] : End->D[F].Versions)
          Found |= V == *P.version;
      }
    CHECK(Found, "version", "a version that never was");
  }
}

// ---------------------------------------------------------------------------
// Configurations of all shapes
struct Asked {
  nixd::AttrSetClient *C;
  std::string Expr, Name;
};
std::vector<Asked> *Evals;
std::vector<std::string> *Started;

void configurations() {
  auto &K = *new Server;
  Evals = new std::vector<Asked>;
  Started = new std::vector<std::string>;
  // who lives
  auto *NW = choose(2, "nixpkgs") ? new nixd::AttrSetClient(nullptr, nullptr)
                                  : nullptr;
  auto *OW = choose(2, "options") ? new nixd::AttrSetClient(nullptr, nullptr)
                                  : nullptr;
  nixd::Worker = NW;
  nixd::OptionWorker = OW;
  K.open("let a=1;in 2");
  std::string U = Ctl::uri().uri();
  auto *Ds = analyse("let a=1;in 2");
  Names Off, None;
  std::set<std::string> Known;
  std::string Nixpkgs;
  std::map<std::string, std::string> Opts;
  int N = symx_param("n", 2);
  for (int I = 0; I < N; I++) {
    Evals->clear();
    Started->clear();
    llvm::json::Object O;
    bool Bad = false, HasNixpkgs = false;
    std::string Expr;
    std::set<std::string> S;
    std::map<std::string, std::string> Os;
    std::vector<std::string> Cmd{"nixfmt"};
    char X = (char)symx_api_u8("b", 'a', 'c');
    switch (choose(9, "shape")) {
    case 0:
      break;
    case 1:
      O["diagnostic"] =
          llvm::json::Object{{"suppress", llvm::json::Array{Sup[0], Sup[2]}}};
      S = {Sup[0]};
      break;
    case 2:
      O["nixpkgs"] = llvm::json::Object{{"expr", std::string(1, X)}};
      Expr = std::string(1, X);
      HasNixpkgs = true;
      break;
    case 3: {
      llvm::json::Object P;
      P[llvm::json::ObjectKey("o")] =
          llvm::json::Object{{"expr", std::string(1, X)}};
      Os["o"] = std::string(1, X);
      if (choose(2, "more")) {
        P[llvm::json::ObjectKey("p")] = llvm::json::Object{{"expr", "e"}};
        Os["p"] = "e";
      }
      O["options"] = std::move(P);
      break;
    }
    case 4:
      O["formatting"] = std::string(1, X);
      Cmd = {std::string(1, X)};
      break;
    case 5:
      O["formatting"] = llvm::json::Object{
          {"command", llvm::json::Array{"f", std::string(1, X)}}};
      Cmd = {"f", std::string(1, X)};
      break;
    case 6:
      O["diagnostic"] = 1;
      Bad = true;
      break;
    case 7:
      O["nixpkgs"] = llvm::json::Object{{"expr", llvm::json::Array{}}};
      O["diagnostic"] =
          llvm::json::Object{{"suppress", llvm::json::Array{Sup[0]}}};
      Bad = true;
      break;
    default:
      O["other"] = 1;
      if (choose(2, "null")) {
        O["nixpkgs"] = nullptr;
        Bad = true;
      }
    }
    size_t Pub = K.Published.size();
    switch (choose(5, "reply")) {
    case 0:
      K.reply(llvm::json::Array{std::move(O)});
      break;
    case 1:
      K.reply(llvm::json::Array{std::move(O), nullptr});
      break;
    case 2:
      K.reply(llvm::json::Array{});
      Bad = true;
      break;
    case 3:
      K.reply(std::move(O));
      Bad = true;
      break;
    default:
      K.reply(error("no"));
      Bad = true;
    }
    symx_reach(Bad ? "bad" : "good");
    auto &Cf = K.C->Config;
    if (Bad) {
      CHECK(Evals->empty() && Started->empty() && K.Published.size() == Pub,
            "config", "a response that is none has an effect");
    } else {
      Off.S = S;
      CHECK(K.Published.size() == Pub + 1, "config",
            "diagnostics are not published again");
      size_t Want = 0;
      auto Has = [&](nixd::AttrSetClient *C, std::string_view E) {
        size_t M = 0;
        for (auto &A : *Evals)
          M += A.C == C && sameBytes(A.Expr, E);
        return M;
      };
      if (HasNixpkgs && NW) {
        Want++;
        CHECK(Has(NW, Expr) == 1, "eval", "nixpkgs are not evaluated");
      }
      for (auto &[Name, E] : Os) {
        if (OW) {
          Want++;
          bool Found = false;
          for (auto &A : *Evals)
            Found |= A.C == OW && A.Name == Name && sameBytes(A.Expr, E);
          CHECK(Found, "eval", "options are not evaluated");
        }
        CHECK((size_t)std::count(Started->begin(), Started->end(), Name) ==
                  !Known.count(Name),
              "start", "a worker is not started, or twice");
        Known.insert(Name);
      }
      CHECK(Evals->size() == Want, "eval", "something else is evaluated");
      bool Same = Cf.formatting.command.size() == Cmd.size();
      for (size_t J = 0; Same && J < Cmd.size(); J++)
        Same = sameBytes(Cf.formatting.command[J], Cmd[J]);
      CHECK(Same, "format", "the command to format differs");
    }
    const char *Why =
        differs(*Ds, "let a=1;in 2", Off, *K.last(U));
    CHECK(!*Why, "suppress", Why);
  }
}

} // namespace

namespace nixd {
void evaluated(AttrSetClient *C, const std::string &E, std::string_view Name) {
  if (Evals)
    Evals->push_back({C, E, std::string(Name)});
}
void started(const std::string &Name) {
  if (Started)
    Started->push_back(Name);
}
} // namespace nixd

extern "C" void symx_harness() {
  W = nullptr;
  Evals = nullptr;
  Started = nullptr;
  switch (symx_param("what", 1)) {
  case 1:
    return oneDocument();
  case 2:
    return histories();
  default:
    return configurations();
  }
}
