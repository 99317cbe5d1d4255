// Requests, replies and calls of the server.
//   what: 1 n messages of any kind   2 many calls to the client at once
//         3 what is written for any text
#include "lsp.h"
#include "pipe.h"
#include "utf.h"
#include <lspserver/LSPServer.h>
#include <map>

using namespace lspserver;
namespace json = llvm::json;

// Keeps what is written until it is flushed.
struct Sink : llvm::raw_ostream {
  std::string S;
  Sink() { SetBufferSize(8192); }
  ~Sink() override { flush(); }
  void write_impl(const char *P, size_t N) override {
    for (size_t I = 0; I < N; I++)
      S.push_back(P[I]);
  }
  uint64_t current_pos() const override { return S.size(); }
};
static Sink *Out;
static void waiting() {
  CHECK(Out->GetNumBytesInBuffer() == 0, "flush",
        "the server waits for input, an answer is still in its buffer");
}

// The messages written so far; framing is checked byte by byte.
static std::vector<json::Value> sent(bool &Framed) {
  std::vector<json::Value> L;
  const std::string &S = Out->S;
  size_t I = 0;
  static const char H[] = "Content-Length: ";
  while (I < S.size()) {
    for (const char *P = H; *P; P++, I++)
      if (I >= S.size() || S[I] != *P)
        return Framed = false, L;
    size_t N = 0, D = 0;
    while (I < S.size() && S[I] >= '0' && S[I] <= '9')
      N = N * 10 + (S[I++] - '0'), D++;
    if (!D || S.compare(I, 4, "\r\n\r\n") || S.size() - I - 4 < N)
      return Framed = false, L;
    I += 4;
    auto V = json::parse({S.data() + I, N});
    if (!V) {
      llvm::consumeError(V.takeError());
      return Framed = false, L;
    }
    L.push_back(std::move(*V));
    I += N;
  }
  return L;
}

struct Par {
  std::string s;
  int64_t n;
};
static bool fromJSON(const json::Value &V, Par &P, json::Path X) {
  json::ObjectMapper O(V, X);
  return O && O.map("s", P.s) && O.map("n", P.n);
}

struct Server : LSPServer {
  std::vector<Par> Notes, Calls;
  std::vector<Callback<json::Value>> Later;
  struct Answer {
    int Tag;
    bool Ok;
    json::Value V;
    int64_t Code;
  };
  std::vector<Answer> Answers;
  int Tag = 0;
  llvm::unique_function<void(const json::Value &, Callback<json::Value>)> Ask;
  llvm::unique_function<void(const json::Value &, Callback<Par>)> AskP;
  llvm::unique_function<void(const json::Value &)> Tell;
  bool Chain = false;

  void ask(json::Value V) {
    Ask(V, [this, T = Tag++](llvm::Expected<json::Value> R) {
      Answer A{T, (bool)R, nullptr, 0};
      if (R)
        A.V = *R;
      else
        llvm::handleAllErrors(
            R.takeError(), [&](const LSPError &E) { A.Code = (int)E.Code; },
            [&](const llvm::ErrorInfoBase &) { A.Code = 1; });
      Answers.push_back(std::move(A));
      if (Chain) {
        Chain = false;
        ask("again");
      }
    });
  }
  void ok(const Par &P, Callback<json::Value> R) {
    Calls.push_back(P);
    R(json::Object{{"r", P.s}, {"n", P.n}});
  }
  void err(const Par &P, Callback<json::Value> R) {
    Calls.push_back(P);
    R(llvm::make_error<LSPError>(P.s, ErrorCode(-32803)));
  }
  void err2(const Par &P, Callback<json::Value> R) {
    Calls.push_back(P);
    R(error("{0}!", P.s));
  }
  void later(const Par &P, Callback<json::Value> R) {
    Calls.push_back(P);
    Later.push_back(std::move(R));
  }
  void note(const Par &P) { Notes.push_back(P); }
  void flush(const Par &P) {
    while (!Later.empty()) {
      auto R = std::move(Later.back());
      Later.pop_back();
      R(json::Value(P.s));
    }
  }
  void asks(const Par &P) { ask(P.s); }
  void tells(const Par &P) { Tell(P.s); }

  Server(std::unique_ptr<InboundPort> I, std::unique_ptr<OutboundPort> O)
      : LSPServer(std::move(I), std::move(O)) {
    Registry.addMethod("t/ok", this, &Server::ok);
    Registry.addMethod("t/err", this, &Server::err);
    Registry.addMethod("t/err2", this, &Server::err2);
    Registry.addMethod("t/later", this, &Server::later);
    Registry.addNotification("t/note", this, &Server::note);
    Registry.addNotification("t/flush", this, &Server::flush);
    Registry.addNotification("t/ask", this, &Server::asks);
    Registry.addNotification("t/tell", this, &Server::tells);
    Ask = mkOutMethod<json::Value, json::Value>("c/ask");
    Tell = mkOutNotifiction<json::Value>("c/tell");
  }
};

// An ID as clients make them: a number, a string.
struct Id {
  std::string Text;
  bool Str;
  unsigned char C;
};
static Id anId() {
  Id I;
  I.Str = choose(2);
  if (I.Str) {
    I.C = symx_api_u8("b", 0x20, 0x7E);
    symx_api_assume(I.C != '"' && I.C != '\\');
    I.Text = std::string("\"") + (char)I.C + "\"";
  } else {
    I.C = symx_api_u8("b", '0', '9');
    I.Text = std::string(1, (char)I.C);
  }
  return I;
}
static bool sameId(const json::Value *V, const Id &I) {
  if (!V)
    return false;
  if (I.Str) {
    auto S = V->getAsString();
    return S && S->size() == 1 && (unsigned char)(*S)[0] == I.C;
  }
  auto N = V->getAsInteger();
  return N && *N == I.C - '0';
}
static std::string aChar() {
  unsigned char C = symx_api_u8("b", 0x20, 0x7E);
  symx_api_assume(C != '"' && C != '\\');
  return std::string(1, (char)C);
}
static bool isStr(const json::Value *V, std::string_view S) {
  auto X = V ? V->getAsString() : std::nullopt;
  return X && sameBytes({X->data(), X->size()}, S);
}

static void frame(std::string &S, const std::string &Body) {
  S += "Content-Length: " + dec(Body.size()) + "\r\n\r\n" + Body;
}

// What has to be written, in order.
struct Want {
  int Kind; // 0 result 1 error 2 call 3 notification
  Id I;
  std::string S;
  int64_t Code = 0; // 0: any
  int Pending = 0;  // for calls: which one
};

static bool isMsg(json::Object *E, const Want &W) {
  if (W.Code && E->getInteger("code") != W.Code)
    return false;
  if (!E->getString("message"))
    return false;
  return W.S.empty() || isStr(E->get("message"), W.S);
}

static void messages() {
  int N = symx_param("n", 2), First = symx_param("first", -1);
  std::string S;
  std::vector<Want> Ws;
  struct Rep {
    unsigned char Digit;
    bool Str, Err;
    std::string S;
    size_t Sent; // calls made before it
  };
  std::vector<Rep> Reps;
  std::vector<std::string> Notes, Calls;
  std::vector<std::pair<Id, bool>> Later;
  unsigned Asked = 0;
  bool Exit = false;
  for (int K = 0; K < N; K++) {
    std::string B = "{\"jsonrpc\":\"2.0\",";
    unsigned Op = K == 0 && First >= 0 ? First : choose(16);
    bool Live = !Exit;
    std::string X = aChar();
    std::string Par = "\"params\":{\"s\":\"" + X + "\",\"n\":5}}";
    switch (Op) {
    case 0:
    case 1:
    case 2:
    case 3: { // calls
      static const char *const M[] = {"t/ok", "t/err", "t/err2", "t/later"};
      Id I = anId();
      B += "\"id\":" + I.Text + ",\"method\":\"" + M[Op] + "\"," + Par;
      if (!Live)
        break;
      Calls.push_back(X);
      if (Op == 0)
        Ws.push_back({0, I, X});
      else if (Op == 1)
        Ws.push_back({1, I, X, -32803});
      else if (Op == 2)
        Ws.push_back({1, I, X + "!"});
      else
        Later.push_back({I, true});
      break;
    }
    case 4: { // unknown method
      Id I = anId();
      static const char *const M[] = {"t/oj", "t/note", "", "t/ok2", "exit",
                                      "c/ask"};
      B += "\"id\":" + I.Text + ",\"method\":\"" + M[choose(6)] + "\"," + Par;
      if (Live)
        Ws.push_back({1, I, "", -32601});
      break;
    }
    case 5: { // bad parameters
      Id I = anId();
      static const char *const P[] = {
          "\"params\":{\"s\":5,\"n\":5}}", "\"params\":{\"s\":\"x\"}}",
          "\"params\":[]}", "\"x\":1}", "\"params\":{\"s\":\"x\",\"n\":1.5}}",
          "\"params\":null}"};
      B += "\"id\":" + I.Text + ",\"method\":\"t/ok\"," + P[choose(6)];
      if (Live)
        Ws.push_back({1, I, "", -32602});
      break;
    }
    case 6: // notifications
      B += "\"method\":\"t/note\"," + Par;
      if (Live)
        Notes.push_back(X);
      break;
    case 7:
      B += "\"method\":\"t/note\",\"params\":{\"s\":\"x\"}}";
      break;
    case 8: {
      static const char *const M[] = {"t/none", "t/ok", ""};
      B += std::string("\"method\":\"") + M[choose(3)] + "\"," + Par;
      break;
    }
    case 9:
      B += "\"method\":\"t/flush\"," + Par;
      if (!Live)
        break;
      while (!Later.empty()) {
        Ws.push_back({0, Later.back().first, X, 7});
        Later.pop_back();
      }
      break;
    case 10:
      B += "\"method\":\"t/ask\"," + Par;
      if (!Live)
        break;
      Asked++;
      Ws.push_back({2, {}, X, 0, (int)Asked});
      break;
    case 11:
      B += "\"method\":\"t/tell\"," + Par;
      if (Live)
        Ws.push_back({3, {}, X});
      break;
    case 12:
    case 13: { // replies, to any call or to none
      Id I = anId();
      B += "\"id\":" + I.Text + ",";
      if (Op == 12)
        B += "\"result\":\"" + X + "\"}";
      else
        B += "\"error\":{\"code\":-5,\"message\":\"" + X + "\"}}";
      if (Live)
        Reps.push_back({I.C, I.Str, Op == 13, X, Asked});
      break;
    }
    case 14: { // replies nobody waits for
      static const char *const Ids[] = {
          "4294967297",           "-1",  "-4294967295", "2147483648", "1.5",
          "9223372036854775807",  "[1]", "{}",          "null",       "true",
          "-9223372036854775808", "0",   "\"1\"",       "1e30"};
      B += std::string("\"id\":") + Ids[choose(14)] + ",\"result\":1}";
      break;
    }
    default:
      B += "\"method\":\"exit\"}";
      Exit = true;
    }
    frame(S, B);
  }
  Pipe P;
  P.S = keep(S);
  P.EndKind = 1;
  P.Waiting = waiting;
  The = &P;
  Sink O;
  Out = &O;
  {
    Server Sv(std::make_unique<InboundPort>(7),
              std::make_unique<OutboundPort>(O, symx_param("pretty", 0)));
    Sv.run();
    CHECK(O.GetNumBytesInBuffer() == 0, "flush",
          "an answer stays in the buffer");
    bool Framed = true;
    auto L = sent(Framed);
    CHECK(Framed, "framing", "the length or form of a message sent is wrong");
    CHECK(L.size() == Ws.size(), "count",
          "a request is not answered exactly once, or something is sent that "
          "nobody asked for");
    std::vector<int64_t> CallIds;
    bool Ok = true, IdOk = true;
    for (size_t I = 0; I < L.size() && I < Ws.size(); I++) {
      Want &W = Ws[I];
      json::Object *V = L[I].getAsObject();
      CHECK(V && isStr(V->get("jsonrpc"), "2.0"), "content",
            "what is sent is not a JSON-RPC message");
      if (!V)
        return;
      switch (W.Kind) {
      case 0: {
        Ok &= !V->get("method") && !V->get("error") && V->get("result");
        IdOk &= sameId(V->get("id"), W.I);
        if (json::Value *R = V->get("result")) {
          if (W.Code == 7)
            Ok &= isStr(R, W.S);
          else
            Ok &= R->getAsObject() && isStr(R->getAsObject()->get("r"), W.S) &&
                  R->getAsObject()->getInteger("n") == 5;
        }
        break;
      }
      case 1: {
        Ok &= !V->get("method") && !V->get("result");
        IdOk &= sameId(V->get("id"), W.I);
        json::Object *E = V->getObject("error");
        Ok &= E && E->getInteger("code") && isMsg(E, W);
        break;
      }
      case 2: {
        Ok &= isStr(V->get("method"), "c/ask") && isStr(V->get("params"), W.S);
        auto Id = V->getInteger("id");
        IdOk &= (bool)Id;
        if (Id) {
          for (int64_t C : CallIds)
            IdOk &= C != *Id;
          CallIds.push_back(*Id);
        }
        break;
      }
      default:
        Ok &= isStr(V->get("method"), "c/tell") &&
              isStr(V->get("params"), W.S) && !V->get("id");
      }
    }
    CHECK(IdOk, "id", "an answer has another ID than its request, or two calls "
                      "have the same ID");
    CHECK(Ok, "content", "an answer has other contents than the handler gave");
    // handlers
    bool H = Sv.Notes.size() == Notes.size() && Sv.Calls.size() == Calls.size();
    for (size_t I = 0; H && I < Notes.size(); I++)
      H &= sameBytes(Sv.Notes[I].s, Notes[I]) && Sv.Notes[I].n == 5;
    for (size_t I = 0; H && I < Calls.size(); I++)
      H &= sameBytes(Sv.Calls[I].s, Calls[I]) && Sv.Calls[I].n == 5;
    CHECK(H, "handler",
          "a handler is not run exactly once with the parameters sent");
    // replies: each one answers the call of its ID, once
    std::vector<bool> Done(Asked, false);
    size_t A = 0;
    bool RepOk = true;
    for (auto &R : Reps) {
      size_t Which = ~size_t(0);
      if (!R.Str)
        for (size_t I = 0; I < CallIds.size() && I < R.Sent; I++)
          if (CallIds[I] == R.Digit - '0' && !Done[I])
            Which = I;
      if (Which == ~size_t(0))
        continue;
      Done[Which] = true;
      if (A >= Sv.Answers.size()) {
        RepOk = false;
        break;
      }
      auto &G = Sv.Answers[A++];
      RepOk &= G.Tag == (int)Which && G.Ok == !R.Err;
      if (G.Ok)
        RepOk &= isStr(&G.V, R.S);
      else
        RepOk &= G.Code == -5;
    }
    CHECK(RepOk && A == Sv.Answers.size(), "reply",
          "a reply does not reach exactly the call it answers, once");
    Sv.Later.clear();
  }
  symx_reach("messages");
}

// More calls than the server keeps, the client answers one of them.
static void many() {
  Sink O;
  Out = &O;
  Pipe P;
  int N = symx_param("n", 104);
  std::string Id = dec(choose(2) ? 1 + choose(4) : N - choose(4));
  std::string S;
  frame(S, "{\"jsonrpc\":\"2.0\",\"id\":" + Id + ",\"result\":\"" + aChar() +
               "\"}");
  P.S = keep(S);
  P.EndKind = 1;
  The = &P;
  int Want = 0;
  for (char C : Id)
    Want = Want * 10 + (C - '0');
  {
    Server Sv(std::make_unique<InboundPort>(7),
              std::make_unique<OutboundPort>(O));
    Sv.Chain = choose(2);
    for (int I = 0; I < N; I++)
      Sv.ask("q");
    size_t Dropped = Sv.Answers.size();
    for (size_t I = 0; I < Dropped; I++)
      CHECK(Sv.Answers[I].Tag == (int)I && !Sv.Answers[I].Ok, "dropped",
            "a call that is given up is not the oldest, or gets no error");
    CHECK(Dropped < (size_t)N, "dropped", "every call is given up");
    bool Framed = true;
    auto L = sent(Framed);
    CHECK(Framed && L.size() == (size_t)Sv.Tag, "count",
          "a call is not sent exactly once");
    // which call has that ID?
    size_t Which = ~size_t(0);
    std::map<int64_t, size_t> Ids;
    for (size_t I = 0; I < L.size(); I++) {
      auto X = L[I].getAsObject() ? L[I].getAsObject()->getInteger("id")
                                  : std::nullopt;
      CHECK(X && !Ids.count(*X), "id", "two calls have the same ID");
      if (X)
        Ids[*X] = I;
    }
    Sv.Chain = false;
    Sv.run();
    auto It = Ids.find(Want);
    if (It != Ids.end())
      Which = It->second;
    size_t Extra = Sv.Answers.size() - Dropped;
    int Times = 0;
    for (auto &A : Sv.Answers)
      Times += A.Ok;
    CHECK(Times == (int)Extra && Extra <= 1, "reply",
          "a reply does not reach exactly the call it answers, once");
    (void)Which;
  }
  symx_reach("many");
}

// Any text as method, parameter, result and error message.
static void written() {
  UText T;
  T.add(symx_param("n", 2));
  Sink O;
  Out = &O;
  {
    OutboundPort Port(O, choose(2));
    unsigned K = choose(5);
    switch (K) {
    case 0:
      Port.notify("m", T.B);
      break;
    case 1:
      Port.call("m", json::Array{T.B}, 3);
      break;
    case 2:
      Port.reply(3, json::Value(T.B));
      break;
    case 3:
      Port.reply(T.B, llvm::make_error<LSPError>(T.B, ErrorCode::InvalidRequest));
      break;
    default:
      Port.sendMessage(json::Object{{T.B, T.B}});
    }
    bool Framed = true;
    auto L = sent(Framed);
    CHECK(Framed && L.size() == 1, "framing",
          "the length or form of a message sent is wrong");
    if (L.size() == 1) {
      json::Object *V = L[0].getAsObject();
      bool Ok = V != nullptr;
      if (V)
        switch (K) {
        case 0:
          Ok &= isStr(V->get("params"), T.B) && isStr(V->get("method"), "m") &&
                !V->get("id") && V->size() == 3;
          break;
        case 1: {
          auto *A = V->getArray("params");
          Ok &= A && A->size() == 1 && isStr(&(*A)[0], T.B) &&
                V->getInteger("id") == 3 && V->size() == 4;
          break;
        }
        case 2:
          Ok &= isStr(V->get("result"), T.B) && V->getInteger("id") == 3 &&
                V->size() == 3;
          break;
        case 3: {
          auto *E = V->getObject("error");
          Ok &= E && isStr(E->get("message"), T.B) &&
                E->getInteger("code") == -32600 && isStr(V->get("id"), T.B) &&
                V->size() == 3;
          break;
        }
        default:
          Ok &= V->size() == 1 && isStr(V->get(T.B), T.B);
        }
      CHECK(Ok, "content", "a message is sent with other contents");
    }
  }
  symx_reach("written");
}

extern "C" void symx_harness() {
  switch (symx_param("what", 1)) {
  case 1:
    return messages();
  case 2:
    return many();
  default:
    return written();
  }
}
