// The stream from the client.
//   what: 1 any number of well-formed messages under any behaviour of the pipe
//         2 the Markdown form of the tests   3 any bytes
#include "lsp.h"
#include "pipe.h"
#include "utf.h"
#include <lspserver/Connection.h>
#include <lspserver/Protocol.h>

using namespace lspserver;

// ---- what is delivered --------------------------------------------------------
struct Got {
  int Kind; // 0 notification 1 call 2 reply 3 error reply
  std::string Method;
  llvm::json::Value Params, ID;
  int64_t Code = 0;
};
struct Recorder : MessageHandler {
  std::vector<Got> L;
  int StopAt = -1;
  bool more() { return StopAt < 0 || (int)L.size() <= StopAt; }
  bool onNotify(llvm::StringRef M, llvm::json::Value P) override {
    L.push_back({0, M.str(), std::move(P), nullptr});
    return more();
  }
  bool onCall(llvm::StringRef M, llvm::json::Value P,
              llvm::json::Value ID) override {
    L.push_back({1, M.str(), std::move(P), std::move(ID)});
    return more();
  }
  bool onReply(llvm::json::Value ID,
               llvm::Expected<llvm::json::Value> R) override {
    if (R) {
      L.push_back({2, "", std::move(*R), std::move(ID)});
    } else {
      Got G{3, "", nullptr, std::move(ID)};
      llvm::handleAllErrors(
          R.takeError(),
          [&](const LSPError &E) {
            G.Method = E.Message;
            G.Code = (int64_t)E.Code;
          },
          [&](const llvm::StringError &E) { G.Method = E.getMessage(); });
      L.push_back(std::move(G));
    }
    return more();
  }
};

// A message with a string of N characters in it, raw as clients send it.
struct Msg {
  int Kind;
  std::string Str, Body;
};
static std::string jsonText(unsigned N) {
  std::string S;
  while (N--) {
    UChar U = putChar(S, 5);
    if (U.Bytes == 1) {
      unsigned char C = S.back();
      symx_api_assume(C >= 0x20 && C != '"' && C != '\\');
    }
  }
  return S;
}
static Msg message(int Kind, unsigned N) {
  Msg M;
  M.Kind = Kind;
  M.Str = jsonText(N);
  static const char *const Pre[] = {
      "{\"jsonrpc\":\"2.0\",\"method\":\"n/m\",\"params\":\"",
      "{\"id\":7,\"method\":\"n/m\",\"params\":[],\"jsonrpc\":\"2.0\",\"x\":\"",
      "{\"jsonrpc\":\"2.0\",\"id\":\"i\",\"result\":\"",
      "{\"jsonrpc\":\"2.0\",\"id\":9,\"error\":{\"code\":-32601,\"message\":\"",
      "{\"jsonrpc\":\"2.0\",\"method\":\""};
  static const char *const Post[] = {"\"}", "\"}", "\"}", "\"}}", "\"}"};
  M.Body = std::string(Pre[Kind]) + M.Str + Post[Kind];
  return M;
}
static bool isString(const llvm::json::Value &V, std::string_view S) {
  auto X = V.getAsString();
  return X && sameBytes({X->data(), X->size()}, S);
}
static bool matches(const Got &G, const Msg &M) {
  switch (M.Kind) {
  case 0:
    return G.Kind == 0 && G.Method == "n/m" && isString(G.Params, M.Str);
  case 1:
    return G.Kind == 1 && G.Method == "n/m" && G.Params.getAsArray() &&
           G.Params.getAsArray()->empty() && G.ID.getAsInteger() == 7;
  case 2:
    return G.Kind == 2 && isString(G.ID, "i") && isString(G.Params, M.Str);
  case 3:
    return G.Kind == 3 && G.ID.getAsInteger() == 9 && G.Code == -32601 &&
           sameBytes(G.Method, M.Str);
  default:
    return G.Kind == 0 && sameBytes(G.Method, M.Str) &&
           G.Params.kind() == llvm::json::Value::Null;
  }
}
static std::string header(unsigned Style, size_t Len) {
  std::string L = "Content-Length: " + dec(Len) + "\r\n";
  switch (Style) {
  case 0:
    return L + "\r\n";
  case 1:
    return "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n" + L +
           "\r\n";
  case 2:
    return L + "Content-Type: a\r\n\r\n";
  case 3:
    return "Content-Length: 0" + dec(Len) + "\r\n\r\n";
  default: { // a field nobody knows
    std::string S = "X-";
    for (int I = 0; I < 2; I++) {
      unsigned char C = symx_api_u8("b", 0x20, 0x7E);
      S.push_back(C);
    }
    return S + ": 5\r\n" + L + "\r\n";
  }
  }
}
static void stream() {
  int Count = symx_param("count", 2), N = symx_param("n", 1);
  std::string S;
  std::vector<Msg> Ms;
  std::vector<size_t> Ends;
  int Kinds = symx_param("kinds", 5), Styles = symx_param("styles", 5);
  for (int I = 0; I < Count; I++) {
    Ms.push_back(message(Kinds > 0 ? choose(Kinds) : -Kinds, N));
    S += header(Styles > 0 ? choose(Styles) : -Styles, Ms.back().Body.size());
    S += Ms.back().Body;
    Ends.push_back(S.size());
  }
  size_t Whole = Count;
  int Cut = symx_param("cut", 0);
  Pipe P;
  if (Cut) {
    // the stream ends inside the last message, any number of bytes of it
    size_t From = Count > 1 ? Ends[Count - 2] : 0;
    size_t Len = S.size() - From;
    size_t K = choose(Len > 250 ? 250 : Len);
    S.resize(From + K);
    Whole = Count - 1;
  }
  P.S = keep(S);
  P.EndKind = choose(symx_param("ends", 3));
  if (P.EndKind == 0) {
    // from the beginning, from the middle of it, or with the last byte read
    size_t At[] = {0, Ends[0] - 3, P.S.size()};
    P.Hup = At[choose(3)];
  }
  disturb(P);
  InboundPort In(7);
  Recorder R;
  size_t Want = Whole;
  switch (symx_param("stop", 0)) {
  case 1: // the handler asks to stop
    R.StopAt = choose(Count);
    Want = R.StopAt + 1;
    break;
  case 2: // the server is told to stop
    P.Port = &In;
    P.CloseAt = choose(P.S.size() > 250 ? 250 : P.S.size());
    Want = ~size_t(0);
    break;
  case 3: // the client dies
    P.DieAt = choose(P.S.size() > 250 ? 250 : P.S.size());
    Want = ~size_t(0);
    break;
  }
  The = &P;
  In.loop(R);
  if (Want != ~size_t(0)) {
    CHECK(R.L.size() >= Want, "lost", "a message is not delivered");
    CHECK(R.L.size() <= Want, "extra",
          "something is delivered that was not sent");
  } else {
    CHECK(R.L.size() <= (size_t)Count, "extra",
          "something is delivered that was not sent");
    // the one that is being read when it happens may be delivered, no others
    size_t At = symx_param("stop", 0) == 2 ? P.CloseAt : P.DieAt;
    size_t Max = 0;
    while (Max < Ends.size() && Ends[Max] <= At)
      Max++;
    CHECK(R.L.size() <= Max + 1, "stop",
          "the server goes on after it was told to stop or its client died");
    CHECK(R.L.size() >= Max, "lost", "a message is not delivered");
    symx_reach("stopped");
  }
  for (size_t I = 0; I < R.L.size() && I < Ms.size(); I++)
    CHECK(matches(R.L[I], Ms[I]), "content",
          "a message is delivered with other contents, or as another kind");
  symx_reach("stream");
}

// The Markdown form: json blocks are messages, nix blocks open documents.
static void litTest() {
  std::string S;
  struct D {
    bool Nix;
    std::string Text;
  };
  std::vector<D> Want;
  int Count = symx_param("count", 2), N = symx_param("n", 1);
  static const char *const Nl[] = {"\n", "\r\n"};
  const char *E = Nl[choose(2)];
  for (int I = 0; I < Count; I++) {
    switch (choose(5)) {
    case 0: { // prose: any line that opens no block
      S += "ab";
      for (int K = 0; K < N; K++) {
        unsigned char C = symx_api_u8("b", 1, 127);
        symx_api_assume(C != '\n');
        S.push_back(C);
      }
      S += E;
      break;
    }
    case 1: {
      std::string T = jsonText(N);
      S = S + "```json" + E + "{\"jsonrpc\":\"2.0\"," + E + "# comment\"" + E +
          "  \"method\":\"m\",\"params\":\"" + T + "\"}" + E + "```" + E;
      Want.push_back({false, T});
      break;
    }
    case 2: {
      // a document of two lines; what it ends with is not kept
      std::string T = "x" + jsonText(N) + ";";
      S = S + "```nix file:///b.nix" + E + T + E + " y" + E + "```" + E;
      Want.push_back({true, T + (E[0] == '\r' ? "\r\n y" : "\n y")});
      break;
    }
    case 3:
      S = S + "<-- x" + E + E;
      break;
    default:
      S = S + "```text" + E;
      break;
    }
  }
  Pipe P;
  P.S = keep(S);
  P.EndKind = choose(2);
  disturb(P);
  P.Hup = 0;
  The = &P;
  InboundPort In(7, JSONStreamStyle::LitTest);
  Recorder R;
  In.loop(R);
  CHECK(R.L.size() == Want.size(), "lit-count",
        "a block is lost, or one that is not there is delivered");
  bool Ok = true;
  for (size_t I = 0; I < R.L.size() && I < Want.size(); I++) {
    const Got &G = R.L[I];
    if (!Want[I].Nix) {
      Ok &= G.Kind == 0 && G.Method == "m" && isString(G.Params, Want[I].Text);
      continue;
    }
    Ok &= G.Kind == 0 && G.Method == "textDocument/didOpen";
    auto *O = G.Params.getAsObject();
    auto *T = O ? O->getObject("textDocument") : nullptr;
    Ok &= T != nullptr;
    if (!T)
      continue;
    auto *X = T->get("text");
    Ok &= X && isString(*X, Want[I].Text);
    auto *U = T->get("uri");
    Ok &= U && isString(*U, "file:///b.nix");
  }
  CHECK(Ok, "lit-content", "a block is delivered with other contents");
  symx_reach("lit");
}

// Whatever the client sends, the server reads on or stops.
static void anyBytes() {
  static const char *const Pre[] = {
      "Content-Length: ",           "Content-Length: 1\r\n\r\n",
      "Content-Length: 5\n\n[",     "Content-Length: 2\r\n\r\n{}",
      "Content-Length: 21474836480", "Content-Length: 922337203685477580",
      "Content-Length: 1844674407370955161"};
  static const char *const Post[] = {"\r\n\r\n{}", "", "\n\n"};
  unsigned K = choose(symx_param("pre", 7));
  std::string S = Pre[K];
  int N = symx_param("n", 2);
  for (int I = 0; I < N; I++) {
    unsigned char C = symx_api_u8("b", 0, 255);
    // a length is worked with, digit by digit
    if (C >= '0' && C <= '9')
      C = (unsigned char)symx_api_conc(C);
    S.push_back(C);
  }
  S += Post[choose(3)];
  Pipe P;
  P.S = keep(S);
  P.EndKind = choose(3);
  The = &P;
  InboundPort In(7, choose(2) ? JSONStreamStyle::LitTest
                              : JSONStreamStyle::Standard);
  Recorder R;
  In.loop(R);
  symx_reach("any");
}

extern "C" void symx_harness() {
  switch (symx_param("what", 1)) {
  case 1:
    return stream();
  case 2:
    return litTest();
  default:
    return anyBytes();
  }
}
