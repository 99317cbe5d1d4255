// Document synchronisation.
//   what: 1 one change to any valid text of n characters (new text: m bytes)
//         2 a store of two files under n operations   4 versions
#include "lsp.h"
#include "utf.h"
#include <lspserver/DraftStore.h>
#include <lspserver/SourceCode.h>

using namespace lspserver;

static void change() {
  UText T, New;
  int N = symx_param("n", 2);
  T.add(N);
  New.add(symx_param("m", 1), 2);
  const std::string &B = T.B;
  // The documented remedy: an editor that takes the missing newline at the end
  // of the file for a line of its own gets that line.
  UText T2 = T;
  T2.B.push_back('\n');
  T2.C.push_back({1, 1, true});
  bool NoNL = T.C.empty() || !T.C.back().NL;
  auto End = T.at(N);
  bool Ok = true, Exact = true, Order = true, Length = true;
  bool Whole = true;
  {
    std::string C = B;
    TextDocumentContentChangeEvent E;
    E.text = New.B;
    if (choose(2))
      E.rangeLength = 77;
    Whole &= !applyChange(C, E) && sameBytes(C, New.B);
  }
  CHECK(Whole, "whole", "a change without a range does not replace the text");
  static const int64_t Far[] = {0x7fffffff, 0x80000000ll, 0x100000000ll};
  unsigned NP = 0;
  struct P {
    int64_t L, C;
  } Ps[64];
  for (int L = 0; L <= End.Line + 2; L++)
    for (int C = 0; C <= 2 * N + 1 && NP < 60; C++)
      Ps[NP++] = {L, C};
  for (int64_t F : Far)
    Ps[NP++] = {0, F};
  Ps[NP++] = {-1, 0};
  for (unsigned I = 0; I < NP; I++)
    for (unsigned J = 0; J < NP; J++)
      for (int RL = 0; RL < 3; RL++) {
        auto S = Ps[I], E = Ps[J];
        auto loc = [&](const UText &X, P Q) {
          if (Q.L < 0)
            return UText::Loc{false, false, 0};
          return X.locate((int)Q.L, Q.C > 1000 ? 1000 : (int)Q.C);
        };
        // does this end need the missing newline?
        auto past = [&](P Q) {
          return NoNL && Q.L == End.Line + 1 && Q.C == 0;
        };
        bool Add = past(S) || (past(E) && loc(T, S).Line && loc(T, S).Exact);
        const UText &U = Add ? T2 : T;
        auto A = loc(U, S), Z = loc(U, E);
        bool Valid = A.Line && A.Exact && Z.Line && Z.Exact;
        bool Sorted = Valid && A.Off <= Z.Off;
        int Units = 0;
        size_t O = 0;
        for (auto &K : U.C) {
          if (O >= A.Off && O < Z.Off)
            Units += K.Units;
          O += K.Bytes;
        }
        TextDocumentContentChangeEvent Ev;
        Range R;
        R.start.line = S.L, R.start.character = S.C;
        R.end.line = E.L, R.end.character = E.C;
        Ev.range = R;
        if (RL)
          Ev.rangeLength = Units + (RL - 1);
        Ev.text = New.B;
        bool Want = Sorted && RL != 2;
        std::string C = B;
        llvm::Error Err = applyChange(C, Ev);
        bool Got = !Err;
        llvm::consumeError(std::move(Err));
        if (Want) {
          Ok &= Got;
          if (Got)
            Exact &= sameBytes(C, U.B.substr(0, A.Off) + New.B +
                                      U.B.substr(Z.Off));
        } else if (!Valid)
          Ok &= !Got;
        else if (!Sorted)
          Order &= !Got;
        else
          Length &= !Got;
      }
  CHECK(Ok, "range", "a change with a range that exists is refused, or one "
                     "with a range that does not exist is made");
  CHECK(Exact, "splice", "a change does not replace exactly the given range");
  CHECK(Order, "order", "a change whose end lies before its start is made");
  CHECK(Length, "length", "a change of the wrong length is made");
  symx_reach("change");
}

static std::string num(uint64_t V) {
  std::string S;
  do {
    S.insert(S.begin(), char('0' + V % 10));
    V /= 10;
  } while (V);
  return S;
}

static void store() {
  DraftStore D;
  struct M {
    bool Have = false;
    std::string Text, Version;
  } Ms[2];
  static const char *const Names[] = {"/a", "/b"};
  int N = symx_param("n", 3);
  std::vector<std::pair<DraftStore::Draft, std::string>> Old;
  for (int I = 0; I < N; I++) {
    unsigned F = choose(2);
    M &X = Ms[F];
    switch (choose(4)) {
    case 0: { // open or change with a version
      std::string V = num(choose(12));
      std::string T(1, (char)symx_api_u8("b", 0, 255));
      std::string R = D.addDraft(Names[F], V, T);
      CHECK(R == V, "version", "the version given is not the one kept");
      X = {true, T, V};
      break;
    }
    case 1: { // without
      static const char *const Vs[] = {"", "9", "a9", "a", "199"};
      if (choose(2)) {
        std::string V = Vs[1 + choose(4)];
        D.addDraft(Names[F], V, "");
        X.Have = true, X.Text = "", X.Version = V;
      }
      std::string T(1, (char)symx_api_u8("b", 0, 255));
      std::string R = D.addDraft(Names[F], "", T);
      CHECK(!R.empty() && R != X.Version, "version",
            "an update without a version keeps the old one");
      CHECK(!X.Have || llvm::StringRef(R).compare_numeric(X.Version) > 0,
            "version", "an update without a version does not increase it");
      X = {true, T, R};
      break;
    }
    case 2:
      D.removeDraft(Names[F]);
      X = {};
      break;
    default:
      break;
    }
    unsigned Live = 0;
    for (int K = 0; K < 2; K++) {
      auto G = D.getDraft(Names[K]);
      CHECK(!!G == Ms[K].Have, "lookup",
            "a document is missing, or found although it was closed");
      if (!G)
        continue;
      Live++;
      CHECK(sameBytes(*G->Contents, Ms[K].Text), "contents",
            "a document does not have the contents last given");
      CHECK(G->Version == Ms[K].Version, "lookup", "wrong version");
      Old.push_back({*G, Ms[K].Text});
    }
    auto Act = D.getActiveFiles();
    CHECK(Act.size() == Live, "active", "wrong number of open documents");
    for (auto &P : Act)
      CHECK((P == "/a" && Ms[0].Have) || (P == "/b" && Ms[1].Have), "active",
            "a document listed as open is not");
    CHECK(!D.getDraft("/c") && !D.getDraft(""), "lookup",
          "a document that was never opened is found");
  }
  for (auto &[Dr, Text] : Old)
    CHECK(sameBytes(*Dr.Contents, Text), "snapshot",
          "contents handed out earlier change later");
  symx_reach("store");
}

static void versions() {
  // every text of up to 3 bytes
  Text T;
  int N = symx_param("n", 3);
  for (int I = 0; I < N; I++)
    T.b();
  std::string_view V = T.fin();
  size_t I = 0;
  if (I < V.size() && V[I] == '-')
    I++;
  bool OK = I < V.size();
  int64_t W = 0;
  for (; I < V.size(); I++) {
    OK &= V[I] >= '0' && V[I] <= '9';
    W = W * 10 + (V[I] - '0');
  }
  if (!V.empty() && V[0] == '-')
    W = -W;
  auto R = DraftStore::decodeVersion(ref(V));
  CHECK(!!R == OK, "decode", "a version is misread as a number, or not read");
  if (R && OK) {
    CHECK(*R == W, "decode", "a version is read as another number");
    symx_reach("version");
  }
  if (symx_param("enc", 0)) {
    int64_t W2 = (int16_t)(symx_api_u8("v", 0, 255) |
                           symx_api_u8("v", 0, symx_param("enc", 0)) << 8);
    std::string E = DraftStore::encodeVersion(W2);
    auto R2 = DraftStore::decodeVersion(E);
    CHECK(R2 && *R2 == W2, "round-trip",
          "an encoded version is decoded to another number");
  }
  CHECK(DraftStore::encodeVersion(std::nullopt).empty(), "round-trip",
        "no version is encoded as one");
  static const int64_t Ex[] = {INT64_MIN, INT64_MAX, 0, -1, 4294967296};
  for (int64_t X : Ex) {
    auto R3 = DraftStore::decodeVersion(DraftStore::encodeVersion(X));
    CHECK(R3 && *R3 == X, "round-trip",
          "an encoded version is decoded to another number");
  }
}

extern "C" void symx_harness() {
  switch (symx_param("what", 1)) {
  case 1:
    return change();
  case 2:
    return store();
  default:
    return versions();
  }
}
