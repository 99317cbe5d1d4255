// Completion and what comes from the workers, at every position of a program.
//   tpl: the text
//   what: 1 names in scope, the workers are dead
//         2 names, hover, definition, hints from the nixpkgs worker
//         4 options
//         8 an unfinished text: what comes next, "back" bytes from its end; "q":
//           the names asked for, "kind": a of nixpkgs, A of options
#include "ctl.h"
#include "canon.h"
#include "dump.h"
#include "edits.h"
#include "tpl.h"
#include <algorithm>
#include <map>
#include <set>

using namespace lspserver;
using nixd::Controller;
using ref::RN;

namespace {

Position posOf(std::string_view S, long Off) {
  Position P{0, 0};
  for (long I = 0; I < Off; I++) {
    unsigned char B = S[I];
    if (B == '\n') {
      P.line++;
      P.character = 0;
    } else if (B < 0x80 || B >= 0xC0)
      P.character += B >= 0xF0 ? 2 : 1;
  }
  return P;
}

bool identifier(const std::string &S) {
  static const char *const Kw[] = {"if",  "then", "else", "assert", "with",
                                   "let", "in",   "rec",  "inherit", "or"};
  for (const char *K : Kw)
    if (sameBytes(S, K))
      return false;
  if (S.empty() || !(ref::al(S[0]) || S[0] == '_'))
    return false;
  for (char C : S)
    if (!ref::idc(C))
      return false;
  return true;
}

using Sel = std::vector<std::string>;

// what is at hand in a program
struct Name {
  enum { Var, Path, Bind } K;
  long B, E;
  RN *N;
  const ref::Occ *O = nullptr; // of the variable, or the base of a selection
  RN *Node = nullptr;          // the selection
  Sel Before;                  // names before it, sets around it
  bool Known = true;           // these are all static
};

struct Prg {
  std::string_view Src;
  ref::Prog P;
  ref::Scope Sc;
  std::vector<Name> L;
  int Inherit = 0;
  explicit Prg(std::string_view S) : Src(S), P(S), Sc(P.S) {}
  const ref::Occ *occ(RN *N) {
    for (const ref::Occ &O : Sc.Occs)
      if (O.B == N->B && O.E == N->E)
        return &O;
    return nullptr;
  }
  // Where: the names of the bindings the set is the value of
  void walk(RN *N, const Sel *Where, bool Known) {
    static const Sel None;
    switch (N->K) {
    case 'v':
      L.push_back({Name::Var, N->B, N->E, N, occ(N)});
      return;
    case '.': {
      Sel Before;
      bool K = N->C[0]->K == 'v';
      for (RN *C : N->C[1]->C) {
        std::string Nm;
        bool Static = ref::Sema::name(C, Nm);
        if (Static && C->C.empty())
          L.push_back({Name::Path, C->B, C->E, C,
                       K ? occ(N->C[0]) : nullptr, N, Before, K});
        K &= Static;
        Before.push_back(Nm);
      }
      break;
    }
    case '{':
      for (RN *B : N->C) {
        if (B->K != '=')
          continue;
        Sel At = *Where;
        bool K = Known && !Inherit;
        for (RN *C : B->C[0]->C) {
          std::string Nm;
          bool Static = ref::Sema::name(C, Nm);
          if (Static && C->C.empty())
            L.push_back({Name::Bind, C->B, C->E, C, nullptr, nullptr, At, K});
          K &= Static;
          At.push_back(Nm);
          for (RN *D : C->C)
            walk(D, &None, true);
        }
        walk(B->C[1], B->C[1]->K == '{' ? &At : &None,
             B->C[1]->K == '{' ? K : true);
      }
      // what the sets in an inherit are is left open
      for (RN *B : N->C)
        if (B->K != '=') {
          Inherit++;
          walk(B, &None, true);
          Inherit--;
        }
      return;
    case 'L':
      // what the sets of a let are is left open
      for (RN *B : N->C[0]->C)
        for (RN *C : B->C)
          walk(C, &None, B->K != '=' || C->K != '{');
      walk(N->C[1], &None, true);
      return;
    }
    for (RN *C : N->C)
      walk(C, &None, true);
  }
  // The attributes of nixpkgs a variable stands for
  bool selector(const ref::Occ *O, Sel &S, int Fuel = 4) {
    if (!O || !Fuel)
      return false;
    if (O->K == 'w') {
      RN *W = O->Withs.front()->With->C[0];
      if (W->K == '.') {
        if (W->C.size() > 2 || W->C[0]->K != 'v' ||
            !selector(occ(W->C[0]), S, Fuel - 1))
          return false;
        for (RN *C : W->C[1]->C) {
          std::string Nm;
          if (!ref::Sema::name(C, Nm))
            return false;
          S.push_back(Nm);
        }
      } else if (W->K != 'v' || !selector(occ(W), S, Fuel - 1))
        return false;
      S.push_back(O->Name);
      return true;
    }
    if (sameBytes(O->Name, "pkgs"))
      return true;
    if (!sameBytes(O->Name, "lib"))
      return false;
    S.push_back("lib");
    return true;
  }
};

// ---------------------------------------------------------------- names
void scope(Prg &G, Ctl &K) {
  CompletionParams P;
  P.textDocument.uri = Ctl::uri();
  for (long I = 0; I <= (long)G.Src.size(); I++) {
    if (I < (long)G.Src.size() && ((unsigned char)G.Src[I] & 0xC0) == 0x80)
      continue;
    P.position = posOf(G.Src, I);
    CompletionList R;
    bool F;
    ask(K.C, &Controller::onCompletion, P, R, F);
    std::vector<Name *> Near;
    for (Name &X : G.L)
      if (X.K == Name::Var && X.B <= I && I <= X.E)
        Near.push_back(&X);
    CHECK(R.items.size() <= 30, "size", "more than 30 proposals at once");
    CHECK(R.isIncomplete ? R.items.size() == 30 : true, "size",
          "called incomplete, but there are no more");
    if (Near.empty()) {
      CHECK(R.items.empty(), "elsewhere", "proposals where there is no name");
      continue;
    }
    const char *Why = "";
    // in front of a name the punctuation may count as well
    bool Ok = R.items.empty() && Near.size() == 1 && Near[0]->B == I;
    for (Name *X : Near) {
      if (!X->O)
        symx_stop();
      // what is visible there
      std::map<std::string, const ref::SDef *> Vis;
      for (ref::SEnv *E = X->O->Env; E; E = E->Up)
        for (ref::SDef *D : E->Defs)
          if (D->Name.compare(0, 2, "__") && identifier(D->Name))
            Vis.insert({D->Name, D});
      std::set<std::string> Got;
      Why = "";
      for (CompletionItem &It : R.items) {
        auto V = Vis.find(It.label);
        std::string Put = It.textEdit      ? It.textEdit->newText
                          : !It.insertText.empty() ? It.insertText
                                                   : It.label;
        if (V == Vis.end())
          Why = "a proposal that is not in scope";
        else if (!sameBytes(Put, It.label))
          Why = "something else is inserted";
        else if (!Got.insert(It.label).second)
          Why = "a name is proposed twice";
        else if ((It.kind == CompletionItemKind::Keyword) !=
                 (V->second->Key == nullptr))
          Why = "builtins are not told from variables";
        else if (It.textEdit &&
                 !(It.textEdit->range ==
                   Range{posOf(G.Src, X->B), posOf(G.Src, X->E)}))
          Why = "the proposal replaces something else";
      }
      std::string Pre(G.Src.substr(X->B, I - X->B));
      std::string All(G.Src.substr(X->B, X->E - X->B));
      size_t N = 0;
      for (auto &[Nm, D] : Vis) {
        bool In = Nm.size() >= All.size() &&
                  sameBytes(std::string_view(Nm).substr(0, All.size()), All);
        N += In;
        if (In && !R.isIncomplete && !Got.count(Nm))
          Why = "a name in scope is not proposed";
      }
      if (I == X->E && Got.size() > N)
        Why = "names are proposed that begin differently";
      for (auto &Nm : Got)
        if (Nm.size() < Pre.size() ||
            !sameBytes(std::string_view(Nm).substr(0, Pre.size()), Pre))
          Why = "names are proposed that begin differently";
      if (N > 30)
        symx_reach("many");
      Ok |= !*Why;
    }
    symx_reach("name");
    CHECK(Ok, "names", Why);
  }
}

// -------------------------------------------------------------- workers
struct Question {
  char K; // a names below, i about a path, A I the same for options
  Sel S;
  std::string Prefix;
};
std::vector<Question> *Asked;

const char *const Replies[] = {"aa", "ab", "b", "a b", "if"};

struct Nixpkgs {
  bool Fails = choose(4, "fails") == 0;
  int Shape = Fails ? 0 : (int)choose(4, "shape");
  nixd::AttrPathInfoResponse I;
  nixd::AttrSetClient *C = new nixd::AttrSetClient(nullptr, nullptr);
  Nixpkgs() {
    I.Meta.Type = 0;
    if (Shape == 1) {
      I.PackageDesc.Name = "nn";
      I.PackageDesc.Version = "v1";
      I.PackageDesc.Description = "dd";
      I.PackageDesc.LongDescription = "ll";
      I.PackageDesc.Homepage = "hh";
      I.PackageDesc.Position = "/x/y.nix:7";
    } else if (Shape == 2) {
      I.ValueDesc = nixd::ValueDescription{"doc", 2, {"xx", "yy"}};
      I.Meta.Location = Location{Ctl::uri("/l.nix"), {{3, 4}, {3, 4}}};
    } else if (Shape == 3) {
      I.PackageDesc.Version = "v2";
      I.PackageDesc.Description = "dd";
    }
    C->AttrPathInfo = [this](const nixd::AttrPathInfoParams &P,
                             Callback<nixd::AttrPathInfoResponse> R) {
      Asked->push_back({'i', P});
      if (Fails)
        return R(error("no"));
      R(I);
    };
    C->AttrPathComplete = [this](const nixd::AttrPathCompleteParams &P,
                                 Callback<nixd::AttrPathCompleteResponse> R) {
      Asked->push_back({'a', P.Scope, P.Prefix});
      if (Fails)
        return R(error("no"));
      R(std::vector<std::string>(std::begin(Replies), std::end(Replies)));
    };
  }
};

bool starts(std::string_view S, std::string_view P) {
  return S.size() >= P.size() && sameBytes(S.substr(0, P.size()), P);
}

bool same(const Sel &A, const Sel &B) {
  if (A.size() != B.size())
    return false;
  for (size_t I = 0; I < A.size(); I++)
    if (!sameBytes(A[I], B[I]))
      return false;
  return true;
}

bool has(const std::string &S, const char *X) {
  return S.find(X) != std::string::npos;
}

void nixpkgs(Prg &G, Ctl &K, Nixpkgs &W) {
  TextDocumentPositionParams P;
  P.textDocument.uri = Ctl::uri();
  bool F;
  for (Name &X : G.L) {
    if (X.K == Name::Bind)
      continue;
    // the end of a name, where no other one begins
    P.position = posOf(G.Src, X.E);
    Sel S;
    bool Known = X.Known && G.selector(X.O, S);
    if (X.K == Name::Path && Known) {
      S.insert(S.end(), X.Before.begin(), X.Before.end());
      S.push_back(std::string(G.Src.substr(X.B, X.E - X.B)));
    }
    bool Last = X.K == Name::Var || X.N == X.Node->C[1]->C.back();
    Range At{posOf(G.Src, X.B), P.position};

    Asked->clear();
    CompletionParams CP;
    CP.textDocument = P.textDocument;
    CP.position = P.position;
    CompletionList R;
    ask(K.C, &Controller::onCompletion, CP, R, F);
    symx_reach(Known ? "known" : "unknown");
    CHECK(Asked->size() <= 1, "ask", "more than one question");
    if (!Known) {
      CHECK(Asked->empty(), "ask", "asked about what is not in nixpkgs");
    } else if (!S.empty()) {
      CHECK(Asked->size() == 1 && (*Asked)[0].K == 'a', "ask",
            "names of nixpkgs are not asked for");
      Sel Up = S;
      Up.pop_back();
      if (Asked->size() == 1)
        CHECK(same((*Asked)[0].S, Up) && sameBytes((*Asked)[0].Prefix, S.back()),
              "ask", "other names are asked for");
      if (R.isIncomplete)
        continue;
      for (const char *N : Replies) {
        // a variable has to be an identifier
        bool Want = !W.Fails && starts(N, S.back()) &&
                    (X.K == Name::Path || identifier(N));
        std::string Put = identifier(N) ? N : '"' + std::string(N) + '"';
        size_t M = 0;
        for (CompletionItem &It : R.items) {
          if (It.label != N || !It.textEdit)
            continue;
          M++;
          symx_reach("proposal");
          CHECK(It.textEdit->newText == Put && It.textEdit->range == At,
                "edit", "a proposal is not put where the name is");
          // and what it is
          Asked->clear();
          CompletionItem Y;
          bool Ok = ask(K.C, &Controller::onCompletionItemResolve, It, Y, F);
          CHECK(Ok && Y.label == It.label && Y.textEdit &&
                    Y.textEdit->newText == Put,
                "resolve", "resolving changes the proposal");
          Sel Full = Up;
          Full.push_back(N);
          CHECK(Asked->size() == 1 && same(Asked->front().S, Full), "resolve",
                "another attribute is asked for");
          if (!W.Fails && W.I.PackageDesc.Version)
            CHECK(has(Y.detail, W.I.PackageDesc.Version->c_str()) &&
                      Y.documentation &&
                      has(Y.documentation->value, "dd") &&
                      (W.Shape != 1 || has(Y.documentation->value, "ll")),
                  "resolve", "what the worker says is not shown");
        }
        CHECK(M == (Want ? 1 : 0), "proposals",
              Want ? "a name of nixpkgs is not proposed, or twice"
                   : "a name is proposed that begins differently");
      }
    }

    // in the middle of a path it is up to the server what it is about
    if (!Last)
      continue;
    Asked->clear();
    std::optional<Hover> H;
    ask(K.C, &Controller::onHover, P, H, F);
    CHECK(Asked->size() <= 1 && (Known || Asked->empty()), "hover",
          "asked about what is not in nixpkgs");
    if (Known) {
      CHECK(Asked->size() == 1 && same(Asked->front().S, S), "hover",
            "another attribute is asked for");
      if (W.Fails || !W.Shape)
        CHECK(!H, "hover", "shows what nobody said");
      else {
        CHECK(!!H, "hover", "what the worker says is not shown");
        if (H) {
          symx_reach("hover");
          const std::string &D = H->contents.value;
          if (W.Shape == 1)
            CHECK(has(D, "nn") && has(D, "hh") && has(D, "dd") && has(D, "ll"),
                  "hover", "something the worker says is not shown");
          if (W.Shape == 2)
            CHECK(has(D, "doc") && has(D, "2") && has(D, "xx") && has(D, "yy"),
                  "hover", "something the worker says is not shown");
          if (W.Shape == 3)
            CHECK(has(D, "dd"), "hover",
                  "something the worker says is not shown");
        }
      }
    } else
      CHECK(!H, "hover", "shows what nobody said");
    if (H && H->range) {
      long B = offset(G.Src, H->range->start), E = offset(G.Src, H->range->end);
      CHECK(B >= 0 && B <= X.B && X.E <= E, "hover", "is about another place");
    }

    Asked->clear();
    llvm::json::Value J = nullptr;
    ask(K.C, &Controller::onDefinition, P, J, F);
    CHECK(Asked->size() <= 1 && (Known || Asked->empty()), "definition",
          "asked about what is not in nixpkgs");
    // an undefined variable has no definition, asked for or not
    bool Def = Known && (X.O->K != 'u' || X.K == Name::Path);
    if (Def)
      CHECK(Asked->size() == 1 && same(Asked->front().S, S), "definition",
            "another attribute is asked for");
    else if (Known)
      continue;
    std::string All;
    llvm::raw_string_ostream OS(All);
    OS << J;
    bool Pkg = Known && !W.Fails && W.Shape == 1,
         Val = Known && !W.Fails && W.Shape == 2;
    CHECK(has(OS.str(), "/x/y.nix") == Pkg && has(OS.str(), "/l.nix") == Val,
          "definition", "does not lead where the worker says");
    if (Val)
      CHECK(has(OS.str(), "\"line\":3"), "definition",
            "does not lead where the worker says");
  }

  // away from names there is nothing to ask
  for (long I = 0; I <= (long)G.Src.size(); I++) {
    bool Near = I < (long)G.Src.size() &&
                ((unsigned char)G.Src[I] & 0xC0) == 0x80;
    for (Name &X : G.L)
      Near |= X.B <= I && I <= X.E;
    if (Near || (I && G.Src[I - 1] == '.'))
      continue;
    Asked->clear();
    CompletionParams CP;
    CP.textDocument = P.textDocument;
    CP.position = posOf(G.Src, I);
    CompletionList R;
    ask(K.C, &Controller::onCompletion, CP, R, F);
    CHECK(Asked->empty() && R.items.empty(), "elsewhere",
          "proposals where there is no name");
  }

  // versions of what comes from a with of pkgs, in the range asked for
  InlayHintsParams Q;
  Q.textDocument.uri = Ctl::uri();
  long Cut = choose(2, "cut") ? (long)choose(G.Src.size() + 1, "end")
                              : (long)G.Src.size();
  while (Cut < (long)G.Src.size() &&
         ((unsigned char)G.Src[Cut] & 0xC0) == 0x80)
    Cut++;
  bool Whole = Cut == (long)G.Src.size();
  if (!Whole || choose(2, "range"))
    Q.range = Range{{0, 0}, posOf(G.Src, Cut)};
  std::vector<InlayHint> H;
  Asked->clear();
  ask(K.C, &Controller::onInlayHint, Q, H, F);
  bool Vs = !W.Fails && W.I.PackageDesc.Version;
  for (Name &X : G.L) {
    if (X.K != Name::Var || !X.O)
      continue;
    Sel S;
    bool Of = X.O->K == 'w' && G.selector(X.O, S) && S.size() == 1;
    // it may come from any with
    bool May = X.O->K == 'w' && Vs;
    Position At = posOf(G.Src, X.E);
    size_t M = 0;
    for (InlayHint &Y : H)
      if (Y.position == At) {
        M++;
        CHECK(has(Y.label, W.I.PackageDesc.Version->c_str()), "hint",
              "another version");
      }
    if (Of && Vs && X.E <= Cut) {
      symx_reach("hint");
      CHECK(M == 1, "hint", "a package has no hint");
    } else
      CHECK(!M || (May && X.E <= Cut), "hint",
            "a hint for something that is no package");
    H.erase(std::remove_if(H.begin(), H.end(),
                           [&](InlayHint &Y) { return Y.position == At; }),
            H.end());
  }
  CHECK(H.empty(), "hint", "a hint where there is no name");
}

// -------------------------------------------------------------- options
struct Options {
  bool Fails;
  int Shape = Fails ? 0 : (int)choose(6, "shape");
  nixd::OptionDescription D;
  nixd::AttrSetClient *C = new nixd::AttrSetClient(nullptr, nullptr);
  Options(bool F) : Fails(F) {
    if (Shape) {
      if (Shape != 5)
        D.Type = nixd::OptionType{std::string("td"), std::string("tn")};
      D.Description = "oo";
      D.Declarations.push_back({Ctl::uri("/o.nix"), {{5, 6}, {5, 6}}});
      if (Shape == 2 || Shape == 4)
        D.Default = "d\\$}e";
      if (Shape == 3 || Shape == 4)
        D.Example = "{x=\"${y}\";}";
    }
    C->OptionInfo = [this](const nixd::AttrPathInfoParams &P,
                           Callback<nixd::OptionInfoResponse> R) {
      Asked->push_back({'I', P});
      if (Fails)
        return R(error("no"));
      R(D);
    };
    C->OptionComplete = [this](const nixd::AttrPathCompleteParams &P,
                               Callback<nixd::OptionCompleteResponse> R) {
      Asked->push_back({'A', P.Scope, P.Prefix});
      if (Fails)
        return R(error("no"));
      R(std::vector<nixd::OptionField>{{"aa", std::nullopt}, {"ab", D}});
    };
  }
};

// what a snippet inserts, with its first place; null: it is not right
std::optional<std::string> expand(const std::string &S) {
  std::string R;
  bool In = false;
  for (size_t I = 0; I < S.size(); I++) {
    if (S[I] == '\\' && I + 1 < S.size() &&
        (S[I + 1] == '\\' || S[I + 1] == '$' || S[I + 1] == '}')) {
      R += S[++I];
      continue;
    }
    if (S[I] == '$') {
      if (In || S.compare(I, 4, "${1:") != 0)
        return std::nullopt;
      I += 3;
      In = true;
      continue;
    }
    if (S[I] == '}' && In) {
      In = false;
      continue;
    }
    R += S[I];
  }
  if (In)
    return std::nullopt;
  return R;
}

bool D(const std::optional<std::string> &V, const std::string &Put) {
  return V && sameBytes(Put, "ab = " + *V + ";");
}

void options(Prg &G, Ctl &K, Options &W, bool Two, bool Snippets) {
  TextDocumentPositionParams P;
  P.textDocument.uri = Ctl::uri();
  bool F;
  for (Name &X : G.L) {
    if (X.K != Name::Bind)
      continue;
    P.position = posOf(G.Src, X.E);
    Sel S = X.Before;
    S.push_back(std::string(G.Src.substr(X.B, X.E - X.B)));
    if (S.size() > 1 && sameBytes(S[0], "config"))
      S.erase(S.begin());
    Range At{posOf(G.Src, X.B), P.position};
    size_t Many = X.Known ? (Two ? 2 : 1) : 0;

    Asked->clear();
    CompletionParams CP;
    CP.textDocument = P.textDocument;
    CP.position = P.position;
    CompletionList R;
    ask(K.C, &Controller::onCompletion, CP, R, F);
    symx_reach(X.Known ? "option" : "no-option");
    // sets in a let have no place among the options, one may ask all the same
    if (X.Known) {
      Sel Up = S;
      Up.pop_back();
      CHECK(Asked->size() == Many, "ask", "not every worker is asked once");
      for (Question &Q : *Asked)
        CHECK(Q.K == 'A' && same(Q.S, Up) && sameBytes(Q.Prefix, S.back()),
              "ask", "other options are asked for");
      size_t Plain = 0, Default = 0, Example = 0, Name = 0, Other = 0;
      for (CompletionItem &It : R.items) {
        std::string Put = !It.insertText.empty() ? It.insertText : It.label;
        if (It.textEdit) {
          CHECK(It.textEdit->newText == Put && It.textEdit->range == At, "edit",
                "a proposal is not put where the name is");
        }
        if (It.insertTextFormat == InsertTextFormat::Snippet) {
          CHECK(Snippets, "snippet", "the client knows no snippets");
          auto X = expand(Put);
          CHECK(!!X, "snippet", "is not well-formed");
          Put = X ? *X : "";
        }
        if (Put == "aa")
          Plain++;
        else if (Put == "ab = ;")
          Name++;
        else if (D(W.D.Default, Put))
          Default++;
        else if (D(W.D.Example, Put))
          Example++;
        else
          Other++;
        if (W.Shape && Put != "aa" && It.documentation)
          CHECK(has(It.documentation->value, "oo"), "doc",
                "the description is another");
      }
      size_t N = W.Fails ? 0 : Many;
      symx_reach("options");
      CHECK(!Other, "proposals", "something else is inserted");
      CHECK(Plain == N, "proposals", "a set of options is not proposed");
      CHECK(Default == (W.D.Default ? N : 0) && Example == (W.D.Example ? N : 0),
            "proposals", "an option is not proposed, or twice");
      CHECK(Name == (!W.D.Default && !W.D.Example ? N : 0), "proposals",
            "an option without values is not proposed");
    }

    Asked->clear();
    std::optional<Hover> H;
    ask(K.C, &Controller::onHover, P, H, F);
    if (X.Known) {
      size_t N = Asked->size();
      CHECK(N && N <= Many && (N == Many || !W.Fails), "hover",
            "no worker is asked, or one twice");
      for (Question &Q : *Asked)
        CHECK(Q.K == 'I' && same(Q.S, S), "hover", "another option is asked for");
      CHECK(!!H == !W.Fails, "hover", "what the worker says is not shown");
      if (H && W.Shape) {
        const std::string &Txt = H->contents.value;
        CHECK(has(Txt, "oo") &&
                  (W.Shape == 5 || (has(Txt, "tn") && has(Txt, "td"))),
              "hover", "something the worker says is not shown");
      }
      if (H && H->range)
        CHECK(*H->range == At, "hover", "is about another place");
    }

    Asked->clear();
    llvm::json::Value J = nullptr;
    ask(K.C, &Controller::onDefinition, P, J, F);
    if (X.Known) {
      for (Question &Q : *Asked)
        CHECK(Q.K == 'I' && same(Q.S, S), "definition",
              "another option is asked for");
      size_t N = Asked->empty() ? 0 : W.D.Declarations.size() * Many;
      auto *A = J.getAsArray();
      size_t M = A ? A->size() : J.getAsObject() ? 1 : 0;
      // of an attribute that is used in the program, the uses matter
      CHECK(M == N, "definition", "not every declaration is there");
    }
  }
}

// ----------------------------------------------------------- unfinished
void unfinished(std::string_view Src, Ctl &K, Nixpkgs &W) {
  std::string_view Q = symx_param_str("q", ".");
  Sel S;
  std::string Part;
  for (char C : Q)
    if (C == '.') {
      S.push_back(Part);
      Part.clear();
    } else
      Part += C;
  char Kind = symx_param_str("kind", "a")[0];
  CompletionParams P;
  P.textDocument.uri = Ctl::uri();
  P.position = posOf(Src, (long)Src.size() - symx_param("back", 0));
  Position B = P.position;
  B.character -= Part.size();
  CompletionList R;
  bool F;
  ask(K.C, &Controller::onCompletion, P, R, F);
  symx_reach("unfinished");
  CHECK(Asked->size() == 1 && Asked->front().K == Kind &&
            same(Asked->front().S, S) &&
            sameBytes(Asked->front().Prefix, Part),
        "unfinished", "other names are asked for");
  if (W.Fails)
    return;
  for (const char *N : {"aa", "ab"}) {
    size_t M = 0;
    for (CompletionItem &It : R.items)
      if (It.label == N || starts(It.label, std::string(N) + " (")) {
        M++;
        symx_reach("proposal");
        CHECK((It.textEdit ? It.textEdit->range == Range{B, P.position}
                           : Part.empty()),
              "edit", "a proposal is not put where the name is");
      }
    CHECK(Kind == 'A' || starts(N, Part) ? M : !M, "unfinished", "a name is not proposed");
  }
}

} // namespace

extern "C" void symx_harness() {
  Tpl T;
  T.Hi = symx_param("hi", 0x7F);
  std::string_view Src = T.make(symx_param_str("tpl", "let a=1;in a"));
  int What = symx_param("what", 1);
  Asked = new std::vector<Question>;
  if (What == 8) {
    symx_reach("program");
    auto &W = *new Nixpkgs;
    auto &O = *new Options(W.Fails);
    auto &K = *new Ctl;
    nixd::Worker = W.C;
    nixd::OptionWorker = O.C;
    K.C->Options["o"].reset(nixd::newProc());
    K.open(Src);
    unfinished(Src, K, W);
    return;
  }
  auto &G = *new Prg(Src);
  if (!G.P.Ok)
    symx_stop();
  G.Sc.run(G.P.Root);
  if (G.Sc.OldLet)
    symx_stop();
  std::vector<nixf::Diagnostic> Ds;
  auto A = nixf::parse(Src, Ds);
  if (!A || ref::anyError(Ds))
    symx_stop();
  static const Sel None;
  G.walk(G.P.Root, &None, true);
  symx_reach("program");
  auto &K = *new Ctl;
  if (What & 1) {
    K.open(Src);
    scope(G, K);
  }
  if (What & 2) {
    auto &W = *new Nixpkgs;
    nixd::Worker = W.C;
    K.open(Src);
    nixpkgs(G, K, W);
  }
  if (What & 4) {
    auto &W = *new Options(choose(4, "fails") == 0);
    bool Two = choose(2, "two"), Snippets = choose(2, "snippets");
    if (choose(2, "nixpkgs"))
      nixd::Worker = (new Nixpkgs)->C;
    nixd::OptionWorker = W.C;
    K.C->Options["o"].reset(nixd::newProc());
    if (Two)
      K.C->Options["p"].reset(nixd::newProc());
    K.C->ClientCaps.CompletionSnippets = Snippets;
    K.open(Src);
    options(G, K, W, Two, Snippets);
  }
}
