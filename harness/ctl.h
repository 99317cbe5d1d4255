// A controller (the server's request handlers) with nothing behind it: what it
// would start or send is taken by the harness.
#pragma once
#include "hx.h"
#include <filesystem>
#include <llvm/Support/FileSystem.h>
#include <lspserver/Logger.h>

#include "nixd/Controller/Controller.h"
#include "nixd/CommandLine/Options.h"
#include "nixd/Eval/Launch.h"

struct QuietLog : lspserver::Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
static QuietLog QuietLogger;
static lspserver::LoggingSession QuietSession{QuietLogger};

namespace nixd {
// What would be sent to workers or started is taken by the harness.
__attribute__((weak)) void evaluated(AttrSetClient *, const std::string &,
                                     std::string_view);
__attribute__((weak)) void started(const std::string &);
__attribute__((noinline)) void
Controller::evalExprWithProgress(AttrSetClient &C, const EvalExprParams &P,
                                 std::string_view Name) {
  volatile auto *B = (volatile char *)&C; // not a null reference
  (void)*B;
  if (evaluated)
    evaluated(&C, P, Name);
}
void Controller::onInitialize(const lspserver::InitializeParams &,
                              lspserver::Callback<llvm::json::Value>) {}
void Controller::onInitialized(const lspserver::InitializedParams &) {}
void Controller::onShutdown(const lspserver::NoParams &,
                            lspserver::Callback<std::nullptr_t>) {}
#ifndef SYMX_FMT
void Controller::onFormat(const lspserver::DocumentFormattingParams &,
                          lspserver::Callback<std::vector<lspserver::TextEdit>>) {
}
namespace util {
AutoCloseFD::~AutoCloseFD() {}
} // namespace util
#endif
void startAttrSetEval(const std::string &, std::unique_ptr<AttrSetClientProc> &) {
}
void startNixpkgs(std::unique_ptr<AttrSetClientProc> &) {}
// The processes that evaluate nixpkgs and options, null: it died
inline AttrSetClient *Worker, *OptionWorker;
inline AttrSetClientProc *NixpkgsProc;
AttrSetClient *AttrSetClientProc::client() {
  return this == NixpkgsProc ? Worker : OptionWorker;
}
inline AttrSetClientProc *newProc() { // never run
  return (AttrSetClientProc *)::operator new(sizeof(AttrSetClientProc));
}
AttrSetClient::AttrSetClient(std::unique_ptr<lspserver::InboundPort> In,
                             std::unique_ptr<lspserver::OutboundPort> Out)
    : LSPServer(std::move(In), std::move(Out)) {}
void startOption(const std::string &Name,
                 std::unique_ptr<AttrSetClientProc> &P) {
  if (started)
    started(Name);
  P.reset(newProc());
}
llvm::cl::OptionCategory NixdCategory("nixd");
} // namespace nixd

// What is on the disk is up to the solver, but for the open file.
static std::vector<std::pair<std::string, int>> *Disk;
int symx_disk(const std::string &P) {
  if (P == "/d/f.nix")
    return 1;
  if (P == "/" || P == "/d")
    return 2;
  for (auto &X : *Disk)
    if (X.first == P)
      return X.second;
  int Is = Disk->size() < 2 ? (int)choose(4, "disk") : 0;
  Disk->emplace_back(P, Is);
  return Is;
}
namespace llvm::sys::fs {
std::error_code access(const Twine &P, AccessMode) {
  return symx_disk(P.str()) ? std::error_code()
                            : std::filesystem::diskError(2);
}
} // namespace llvm::sys::fs

struct Ctl {
  nixd::Controller *C;
  std::vector<lspserver::PublishDiagnosticsParams> Published;
  Ctl() {
    nixd::Worker = nixd::OptionWorker = nullptr;
    Disk = new std::vector<std::pair<std::string, int>>;
    symx_tasks::Queue = nullptr;
    C = new nixd::Controller(nullptr, nullptr);
    C->PublishDiagnostic = [this](const lspserver::PublishDiagnosticsParams &P) {
      Published.push_back(P);
    };
    // a worker whose process has died
    C->NixpkgsEval.reset(nixd::NixpkgsProc = nixd::newProc());
  }
  static lspserver::URIForFile uri(llvm::StringRef File = "/d/f.nix") {
    return lspserver::URIForFile::canonicalize(File, File);
  }
  void open(std::string_view Src, llvm::StringRef File = "/d/f.nix") {
    lspserver::DidOpenTextDocumentParams P;
    P.textDocument.uri = uri(File);
    P.textDocument.languageId = "nix";
    P.textDocument.version = 1;
    P.textDocument.text = std::string(Src);
    C->onDocumentDidOpen(P);
  }
};

// Calls a handler; true when it answered (exactly once) with a result
template <class T, class P>
bool ask(nixd::Controller *C,
         void (nixd::Controller::*H)(const P &, lspserver::Callback<T>),
         const P &Params, T &Out, bool &Failed) {
  int N = 0;
  bool Ok = false;
  (C->*H)(Params, [&](llvm::Expected<T> R) {
    N++;
    if (R) {
      Out = std::move(*R);
      Ok = true;
    } else {
      llvm::consumeError(R.takeError());
    }
  });
  CHECK(N == 1, "answer", N ? "more than one answer" : "no answer");
  Failed = !Ok;
  return Ok;
}
