// Formatting with a command: what is asked, answered and left behind.
#define SYMX_FMT 1
#include "ctl.h"
#include "fmt.h"

using namespace lspserver;

static Ctl *K;
static int Size;
static bool Closed;
static std::string *Text_;

static void meanwhile() { // the document and the configuration change
  Closed = true;
  K->C->Store.addDraft("/d/f.nix", "2", "z");
  std::lock_guard G(K->C->ConfigLock);
  K->C->Config.formatting.command = {"other"};
}

// What the document is after the edits
static bool turns(const std::vector<TextEdit> &L, std::string_view Doc,
                  std::string_view Into) {
  if (L.empty())
    return sameBytes(Doc, Into);
  if (L.size() != 1)
    return false;
  auto Off = [&](Position P) {
    size_t I = 0;
    for (int N = 0; N < P.line; N++) {
      size_t E = Doc.find('\n', I);
      if (E == Doc.npos)
        return Doc.size();
      I = E + 1;
    }
    size_t E = Doc.find('\n', I);
    if (E == Doc.npos)
      E = Doc.size();
    return P.character < 0 ? Doc.npos
           : I + P.character > E ? E : I + (size_t)P.character;
  };
  if (L[0].range.start.line < 0 || L[0].range.end.line < 0)
    return false;
  size_t A = Off(L[0].range.start), B = Off(L[0].range.end);
  if (A > B || B > Doc.size() || A > Into.size() ||
      Doc.size() - B > Into.size() - A)
    return false;
  size_t Tail = Doc.size() - B;
  return L[0].newText.size() == Into.size() - A - Tail &&
         sameBytes(Doc.substr(0, A), Into.substr(0, A)) &&
         sameBytes(L[0].newText, Into.substr(A, L[0].newText.size())) &&
         sameBytes(Doc.substr(B), Into.substr(Into.size() - Tail));
}

static bool Failed;
static std::vector<TextEdit> *GotP;
#define Got (*GotP)
static void run() {
  DocumentFormattingParams P;
  P.textDocument.uri = Ctl::uri();
  GotP = new std::vector<TextEdit>;
  ask(K->C, &nixd::Controller::onFormat, P, Got, Failed);
}

static void server() {
  World *Old = W;
  W = new World;
  W->Phase = 2;
  for (int I = 0; I < 3; I++)
    W->Of[I] = Old->Of[I];
  W->Max = symx_param("ops", 2);
  W->Doc = *Text_;
  W->Eager = choose(2, "eager");
  W->Meanwhile = meanwhile;
  int N = symx_param("budget", 0);
  for (int I = 0; I < N; I++)
    W->D[I] = (int)choose(symx_param("steps", 40), "at");
  run();
  if (Failed)
    symx_reach("failed");
  if (W->Fails) {
    CHECK(Failed, "error", "formatted without running a command");
    symx_reach("fault");
    return;
  }
  CHECK(!W->Lives && W->Reaped, "zombie", "the command is not waited for");
  int Open = 0;
  for (int I = 3; I < 24; I++)
    Open += W->T[I].P != -1;
  CHECK(Open == 0, "leak", "descriptors stay open");
  if (W->Exit != 0) {
    CHECK(Failed, "failure", "the output of a command that failed is used");
    return;
  }
  CHECK(!Failed, "success", "a command that succeeds is reported as failed");
  if (Failed)
    return;
  symx_reach(Got.empty() ? "same" : "changed");
  if (W->Printed.size() > CAP)
    symx_reach("long");
  CHECK(turns(Got, W->Doc, W->Printed), "edit",
        "the edits do not make the document what the command printed");
  if (sameBytes(W->Doc, W->Printed))
    CHECK(Got.empty(), "same", "edits, though nothing changes");
  if (Closed)
    symx_reach("changed-meanwhile");
}

extern "C" void symx_harness(void) {
  K = new Ctl;
  Closed = false;
  W = new World;
  Text_ = new std::string;
  switch (symx_param("sizes", 4) == 2 ? 1 + 2 * choose(2, "size")
                                      : choose(4, "size")) {
  case 0:
    break;
  case 1:
    Text_->push_back((char)symx_api_u8("doc", 'a', 'z'));
    break;
  case 2:
    *Text_ = "a\nb";
    break;
  case 3:
    Text_->assign(symx_param("long", CHUNK), 'x');
    (*Text_)[symx_param("long", CHUNK) / 2] = '\n';
  }
  bool Open = symx_param("sizes", 4) == 2 || choose(4, "open") != 3;
  if (Open)
    K->C->Store.addDraft("/d/f.nix", "1", *Text_);
  static const char *Argv[] = {"f", "-x y", "", nullptr};
  int N = symx_param("sizes", 4) == 2 ? 2 : (int)choose(3, "command");
  if (!Open && N > 1)
    return;
  {
    std::lock_guard G(K->C->ConfigLock);
    K->C->Config.formatting.command.clear();
    for (int I = 0; I < N; I++)
      K->C->Config.formatting.command.push_back(Argv[I]);
  }
  const char *A[4] = {Argv[0], N > 1 ? Argv[1] : nullptr, nullptr, nullptr};
  W->Argv = A;
  W->Again = server;
  run();
  // The command was not started.
  CHECK(Failed, "error", "formatted without running a command");
  CHECK(!Open || N == 0 || W->Fails, "refused",
        "the command is not started, though it could be");
  symx_reach(W->Fails ? "fault" : "refused");
}
