// Code actions: what applying one to the text makes of the program.
//   tpl: the text
//   act: 1 quote/unquote 2 to inherit 4 flatten 8 pack 16 from inherit
//        32 strings 64 extract 128 with to let 256 formals
//   what: 1 valid programs keep their meaning  2 no crash, edits in the text
#include "canon.h"
#include <lspserver/Logger.h>
#include "edits.h"
#include "tpl.h"
#include <llvm/Support/FileSystem.h>
#include <system_error>

#include "CodeActions/AddToFormals.h"
#include "CodeActions/AttrName.h"
#include "CodeActions/ConvertToInherit.h"
#include "CodeActions/ExtractToFile.h"
#include "CodeActions/FlattenAttrs.h"
#include "CodeActions/InheritToBinding.h"
#include "CodeActions/PackAttrs.h"
#include "CodeActions/RewriteString.h"
#include "CodeActions/WithToLet.h"

#include "dump.h"
#include <algorithm>
#include <nixf/Parse/Parser.h>
#include <nixf/Sema/ParentMap.h>
#include <nixf/Sema/VariableLookup.h>

using namespace nixf;
using lspserver::CodeAction;
using ref::Canon;
using ref::Prog;
using ref::RN;

static const std::string Uris[] = {"file:///d/f.nix", "file:///d%20e/f.nix"},
                         Files[] = {"/d/f.nix", "/d e/f.nix"};
#define Uri Uris[symx_param("uri", 0)]
#define File Files[symx_param("uri", 0)]

// Whether a file exists is up to the solver.
static std::vector<std::pair<std::string, bool>> *Disk;
static bool onDisk(const std::string &P) {
  if (P == File)
    return true;
  for (auto &X : *Disk)
    if (X.first == P)
      return X.second;
  bool Is = Disk->size() < 2 && choose(2, "exists");
  Disk->emplace_back(P, Is);
  return Is;
}
namespace llvm::sys::fs {
std::error_code access(const Twine &P, AccessMode) {
  return onDisk(P.str())
             ? std::error_code()
             : std::make_error_code(std::errc::no_such_file_or_directory);
}
} // namespace llvm::sys::fs

static void nodes(const Node *N, std::vector<const Node *> &L) {
  if (!N)
    return;
  L.push_back(N);
  for (const Node *C : N->children())
    nodes(C, L);
}

// The edits of an action by document
struct Edits {
  bool Ok = true;
  std::vector<lspserver::TextEdit> Here, New;
  std::string Created; // path of the new file
};
static Edits editsOf(const CodeAction &A) {
  Edits R;
  if (!A.edit) {
    R.Ok = false;
    return R;
  }
  if (A.edit->changes)
    for (const auto &X : *A.edit->changes) {
      if (X.first != Uri)
        R.Ok = false;
      R.Here.insert(R.Here.end(), X.second.begin(), X.second.end());
    }
  if (A.edit->documentChanges)
    for (const lspserver::DocumentChange &X : *A.edit->documentChanges) {
      if (auto *C = std::get_if<lspserver::CreateFile>(&X)) {
        if (!R.Created.empty() || !R.New.empty())
          R.Ok = false;
        R.Created = C->uri.file().str();
        if (C->options && (C->options->overwrite.value_or(false) ||
                           C->options->ignoreIfExists.value_or(false)))
          R.Ok = false;
      } else if (auto *E = std::get_if<lspserver::TextDocumentEdit>(&X)) {
        std::string P = E->textDocument.uri.file().str();
        if (P == File)
          R.Here.insert(R.Here.end(), E->edits.begin(), E->edits.end());
        else if (!R.Created.empty() && P == R.Created)
          R.New.insert(R.New.end(), E->edits.begin(), E->edits.end());
        else
          R.Ok = false;
      } else {
        R.Ok = false;
      }
    }
  return R;
}

// After is Before with one formal `Name` more, in the function that encloses
// a use of it.
struct AddFormal {
  std::string Name;
  RN *At = nullptr; // the function that got it
  int Added = 0;
  bool eq(RN *B, RN *A, RN *Fn) {
    if (!B || !A)
      return B == A;
    if (B->K != A->K || !sameBytes(B->S, A->S) || B->V != A->V ||
        B->M.size() != A->M.size())
      return false;
    if (B->K == 'F' && A->C.size() == B->C.size() + 1) {
      size_t J = 0;
      for (RN *O : A->C) {
        if (!Added && O->V == 0 && O->C.size() == 1 &&
            sameBytes(O->C[0]->S, Name)) {
          Added = 1;
          At = Fn;
          continue;
        }
        if (J == B->C.size() || !eq(B->C[J++], O, Fn))
          return false;
      }
      return J == B->C.size();
    }
    if (B->C.size() != A->C.size())
      return false;
    for (size_t I = 0; I < B->C.size(); I++)
      if (!eq(B->C[I], A->C[I], B->K == '\\' ? B : Fn))
        return false;
    return true;
  }
  // a use of the name with no other function around it
  bool used(RN *N) {
    if (N->K == 'v' && sameBytes(N->S, Name))
      return true;
    for (RN *C : N->C)
      if (C && C->K != '\\' && used(C))
        return true;
    return false;
  }
};

struct Quiet : lspserver::Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
static Quiet QuietLogger;
static lspserver::LoggingSession QuietSession{QuietLogger};

extern "C" void symx_harness() {
  Disk = new std::vector<std::pair<std::string, bool>>;
  Tpl T;
  // Positions count characters: a symbolic byte is a whole one.
  T.Hi = symx_param("hi", 0x7F);
  std::string_view Src = T.make(symx_param_str("tpl", "\\{a=1;\\}"));
  int What = symx_param("what", 1), Act = symx_param("act", 0x1ff);
  std::vector<Diagnostic> D;
  auto A = parse(Src, D);
  if (!A)
    symx_stop();
  bool Err = ref::anyError(D);
  if (Err && !(What & 2))
    symx_stop();
  VariableLookupAnalysis V(D);
  V.runOnAST(*A);
  ParentMapAnalysis PM;
  PM.runOnAST(*A);
  Prog *Before = nullptr;
  if (!Err && (What & 5)) {
    Before = new Prog(Src);
    if (!Before->Ok)
      symx_stop();
  }
  std::vector<const Node *> L;
  nodes(A.get(), L);
  std::vector<CodeAction> Done;
  llvm::StringRef S(Src.data(), Src.size());
  for (const Node *N : L) {
    std::vector<CodeAction> As;
    if (Act & 1)
      nixd::addAttrNameActions(*N, PM, Uri, S, As);
    if (Act & 2)
      nixd::addConvertToInheritAction(*N, PM, Uri, S, As);
    if (Act & 4)
      nixd::addFlattenAttrsAction(*N, PM, Uri, S, As);
    if (Act & 8)
      nixd::addPackAttrsAction(*N, PM, Uri, S, As);
    if (Act & 16)
      nixd::addInheritToBindingAction(*N, PM, Uri, S, As);
    if (Act & 32)
      nixd::addRewriteStringAction(*N, PM, Uri, S, As);
    if (Act & 64)
      nixd::addExtractToFileAction(*N, PM, V, Uri, S, As);
    if (Act & 128)
      nixd::addWithToLetAction(*N, PM, V, Uri, S, As);
    if (Act & 256)
      nixd::addToFormalsAction(*N, PM, V, Uri, S, As);
    for (CodeAction &X : As) {
      bool Seen = false;
      for (CodeAction &Y : Done)
        Seen |= X.title == Y.title && X.edit && Y.edit &&
                X.edit->changes == Y.edit->changes && !X.edit->documentChanges;
      if (Seen)
        continue;
      Done.push_back(X);
      symx_reach("action");
      Edits E = editsOf(X);
      std::string Out;
      bool Ok = E.Ok && apply(Src, E.Here, Out);
      if (T.Hi < 0x80)
        CHECK(Ok, "edits", "the edits of an action overlap or leave the text");
      if (!Ok || Err || !(What & 5))
        continue;
      symx_reach("action-in-program");
      std::string_view New = keep(Out);
      Prog After(New);
      CHECK(After.Ok, "invalid", X.title.c_str());
      if (!After.Ok)
        continue;
      Canon C;
      if (!E.Created.empty()) {
        // next to the text, under a name that was free
        std::string Dir = File.substr(0, File.rfind('/') + 1);
        bool Place = E.Created.size() > Dir.size() &&
                     E.Created.compare(0, Dir.size(), Dir) == 0 &&
                     E.Created.find('/', Dir.size()) == std::string::npos;
        CHECK(Place && !onDisk(E.Created), "place",
              "the new file is not a free name in the directory");
        std::string Text;
        Ok = apply("", E.New, Text);
        CHECK(Ok, "edits", "the new file is not filled");
        if (!Place || !Ok)
          continue;
        Prog *F = new Prog(keep(Text));
        CHECK(F->Ok, "invalid", "the new file is no program");
        if (!F->Ok)
          continue;
        C.Imported = F;
        C.FileName = "./" + E.Created.substr(Dir.size());
        C.Apply = X.title.find(" free variable") != std::string::npos;
        symx_reach("extracted");
      }
      if (X.title.compare(0, 5, "add `") == 0) {
        AddFormal AF{X.title.substr(5, X.title.rfind('`') - 5)};
        CHECK(AF.eq(Before->Root, After.Root, nullptr) && AF.Added &&
                  AF.used(AF.At),
              "formal", X.title.c_str());
        symx_reach("formal");
        continue;
      }
      if (What & 1)
        CHECK(C.same(*Before, After), "meaning", X.title.c_str());
    }
  }
}
