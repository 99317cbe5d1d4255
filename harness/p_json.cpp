// "Convert JSON to Nix": the expression has the value of the JSON text.
//   tpl: the text; "[" or "{" of JSON to its end is selected, or:
//   what: 1 the selection is the text from `from` to its end - `upto`
//         2 any selection: nothing is read outside, and what is offered
//         replaces
//           exactly the selection by its value
#include "sema.h"
#include "tpl.h"
#include <cmath>
#include <cstdlib>
#include <lspserver/Logger.h>

#include "CodeActions/JsonToNix.h"

using ref::RN;

struct Quiet : lspserver::Logger { // no log
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
static Quiet QuietLogger;
static lspserver::LoggingSession QuietSession{QuietLogger};

// RFC 8259
struct J {
  char K = 0; // n t f i d s [ {
  uint64_t V = 0;
  bool Neg = false;
  double D = 0;
  std::string S;
  std::vector<J *> C;
  std::vector<std::string> Keys;
};
struct JParse {
  std::string_view X;
  size_t I = 0;
  bool Bad = false, Unspec = false;
  bool at(char C) { return I < X.size() && X[I] == C; }
  void ws() {
    while (I < X.size() &&
           (X[I] == ' ' || X[I] == '\n' || X[I] == '\t' || X[I] == '\r'))
      I++;
  }
  bool eat(char C) {
    if (!at(C))
      return false;
    I++;
    return true;
  }
  bool word(std::string_view W) {
    for (char C : W)
      if (!eat(C))
        return false;
    return true;
  }
  static void utf8(std::string &S, uint32_t U) {
    if (U < 0x80)
      S += (char)U;
    else if (U < 0x800) {
      S += (char)(0xC0 | U >> 6);
      S += (char)(0x80 | (U & 63));
    } else if (U < 0x10000) {
      S += (char)(0xE0 | U >> 12);
      S += (char)(0x80 | ((U >> 6) & 63));
      S += (char)(0x80 | (U & 63));
    } else {
      S += (char)(0xF0 | U >> 18);
      S += (char)(0x80 | ((U >> 12) & 63));
      S += (char)(0x80 | ((U >> 6) & 63));
      S += (char)(0x80 | (U & 63));
    }
  }
  uint32_t hex4() {
    uint32_t R = 0;
    for (int K = 0; K < 4; K++, I++) {
      if (I >= X.size())
        return Bad = true, 0;
      unsigned char C = X[I], L = C | 32;
      if (C >= '0' && C <= '9')
        R = R * 16 + (C - '0');
      else if (L >= 'a' && L <= 'f')
        R = R * 16 + (L - 'a' + 10);
      else
        return Bad = true, 0;
    }
    return R;
  }
  std::string str() {
    std::string R;
    for (;;) {
      if (I >= X.size())
        return Bad = true, R;
      unsigned char C = X[I++];
      if (C == '"')
        return R;
      if (C < 0x20)
        return Bad = true, R;
      if (C != '\\') {
        R += (char)C;
        continue;
      }
      if (I >= X.size())
        return Bad = true, R;
      switch (X[I++]) {
      case '"':
        R += '"';
        break;
      case '\\':
        R += '\\';
        break;
      case '/':
        R += '/';
        break;
      case 'b':
        R += '\b';
        break;
      case 'f':
        R += '\f';
        break;
      case 'n':
        R += '\n';
        break;
      case 'r':
        R += '\r';
        break;
      case 't':
        R += '\t';
        break;
      case 'u': {
        uint32_t U = hex4();
        if (Bad)
          return R;
        if (U >= 0xD800 && U < 0xDC00 && I + 1 < X.size() && X[I] == '\\' &&
            X[I + 1] == 'u') {
          size_t Back = I;
          I += 2;
          uint32_t L = hex4();
          if (Bad)
            return R;
          if (L >= 0xDC00 && L < 0xE000) {
            U = 0x10000 + ((U - 0xD800) << 10) + (L - 0xDC00);
            Unspec |= U >= 0x20000; // LLVM 18 decodes these wrongly
          } else
            I = Back;
        }
        if (U >= 0xD800 && U < 0xE000)
          U = 0xFFFD; // half a pair stands for nothing
        utf8(R, U);
        break;
      }
      default:
        return Bad = true, R;
      }
    }
  }
  J *num() {
    J *N = new J;
    size_t B = I;
    N->Neg = eat('-');
    bool Int = true, Over = false;
    size_t D0 = I;
    while (I < X.size() && X[I] >= '0' && X[I] <= '9') {
      uint64_t D = X[I++] - '0';
      Over |= N->V > (UINT64_MAX - D) / 10;
      N->V = N->V * 10 + D;
    }
    if (I == D0 || (X[D0] == '0' && I - D0 > 1))
      return Bad = true, N;
    if (at('.')) {
      Int = false;
      I++;
      size_t F = I;
      while (I < X.size() && X[I] >= '0' && X[I] <= '9')
        I++;
      Bad |= I == F;
    }
    if (at('e') || at('E')) {
      Int = false;
      I++;
      if (!eat('+'))
        eat('-');
      size_t F = I;
      while (I < X.size() && X[I] >= '0' && X[I] <= '9')
        I++;
      Bad |= I == F;
    }
    bool Fits = !Over && N->V <= (uint64_t)INT64_MAX + (N->Neg ? 1 : 0);
    N->K = Int && Fits ? 'i' : 'd';
    if (N->K == 'd')
      N->D = strtod(std::string(X.substr(B, I - B)).c_str(), nullptr);
    return N;
  }
  J *value() {
    J *N = new J;
    ws();
    if (Bad || I >= X.size())
      return Bad = true, N;
    switch (X[I]) {
    case 'n':
      Bad |= !word("null");
      N->K = 'n';
      break;
    case 't':
      Bad |= !word("true");
      N->K = 't';
      break;
    case 'f':
      Bad |= !word("false");
      N->K = 'f';
      break;
    case '"':
      I++;
      N->K = 's';
      N->S = str();
      break;
    case '[':
      I++;
      N->K = '[';
      ws();
      if (eat(']'))
        return N;
      do {
        N->C.push_back(value());
        ws();
        if (Bad)
          return N;
      } while (eat(','));
      Bad |= !eat(']');
      break;
    case '{':
      I++;
      N->K = '{';
      ws();
      if (eat('}'))
        return N;
      do {
        ws();
        if (!eat('"'))
          return Bad = true, N;
        std::string K = str();
        ws();
        if (Bad || !eat(':'))
          return Bad = true, N;
        J *V = value();
        ws();
        if (Bad)
          return N;
        bool Old = false;
        for (size_t P = 0; P < N->Keys.size(); P++)
          if (sameBytes(N->Keys[P], K)) {
            N->C[P] = V; // the last one counts
            Old = true;
          }
        if (!Old) {
          N->Keys.push_back(K);
          N->C.push_back(V);
        }
      } while (eat(','));
      Bad |= !eat('}');
      break;
    default:
      return num();
    }
    return N;
  }
};

static double number(const RN *N) {
  if (N->K == 'i')
    return (double)N->V;
  double D;
  static_assert(sizeof D == sizeof N->V);
  memcpy(&D, &N->V, sizeof D);
  return D;
}
static bool str(const RN *N, const std::string &S) {
  if (N->K != 's')
    return false;
  std::string R;
  for (const RN *C : N->C) {
    if (C->K != '"')
      return false;
    R += C->S;
  }
  return sameBytes(R, S);
}

static bool same(const J *A, const RN *N) {
  while (N->K == '(')
    N = N->C[0];
  switch (A->K) {
  case 'n':
    return N->K == 'v' && sameBytes(N->S, "null");
  case 't':
    return N->K == 'v' && sameBytes(N->S, "true");
  case 'f':
    return N->K == 'v' && sameBytes(N->S, "false");
  case 's':
    return str(N, A->S);
  case '[':
    if (N->K != '[' || N->C.size() != A->C.size())
      return false;
    for (size_t I = 0; I < A->C.size(); I++)
      if (!same(A->C[I], N->C[I]))
        return false;
    return true;
  case '{': {
    if (N->K != '{' || N->V || N->C.size() != A->C.size())
      return false;
    for (const RN *B : N->C) {
      std::string K;
      if (B->K != '=' || B->C[0]->C.size() != 1 ||
          !ref::Sema::name(B->C[0]->C[0], K))
        return false;
      bool Found = false;
      for (size_t P = 0; P < A->Keys.size(); P++)
        if (sameBytes(A->Keys[P], K)) {
          Found = true;
          if (!same(A->C[P], B->C[1]))
            return false;
        }
      if (!Found)
        return false;
    }
    return true;
  }
  }
  // numbers: an integer exactly, a float by its value
  bool Neg = false;
  if (A->K == 'i' && A->Neg && A->V == (uint64_t)1 << 63 && N->K == 'b') {
    // there is no literal for it: -9223372036854775807 - 1
    const RN *L = N->C[0];
    while (L->K == '(')
      L = L->C[0];
    return N->V == ref::O_SUB && L->K == '1' && L->C[0]->K == 'i' &&
           L->C[0]->V == INT64_MAX && N->C[1]->K == 'i' && N->C[1]->V == 1;
  }
  if (N->K == '1') {
    Neg = true;
    N = N->C[0];
    while (N->K == '(')
      N = N->C[0];
  }
  if (A->K == 'i')
    return N->K == 'i' && N->V == A->V && (Neg == A->Neg || A->V == 0);
  if (N->K != 'i' && N->K != 'f')
    return false;
  double D = number(N);
  return (Neg ? -D : D) == A->D;
}

static bool zeroByte(const J *A) {
  for (char C : A->S)
    if (!C)
      return true;
  for (auto &K : A->Keys)
    for (char C : K)
      if (!C)
        return true;
  for (const J *C : A->C)
    if (zeroByte(C))
      return true;
  return false;
}
static bool huge(const J *A) {
  if (A->K == 'd' && std::isinf(A->D))
    return true;
  for (const J *C : A->C)
    if (huge(C))
      return true;
  return false;
}

static lspserver::Position pos(std::string_view X, size_t At) {
  lspserver::Position P{0, 0};
  for (size_t I = 0; I < At; I++)
    if (X[I] == '\n') {
      P.line++;
      P.character = 0;
    } else if ((X[I] & 0xC0) != 0x80)
      P.character += (unsigned char)X[I] >= 0xF0 ? 2 : 1;
  return P;
}

extern "C" void symx_harness() {
  Tpl T;
  T.Hi = 0x7F;
  std::string_view Src = T.make(symx_param_str("tpl", "[1]"));
  size_t B = symx_param("from", 0), E = Src.size() - symx_param("upto", 0);
  if (symx_param("what", 1) == 2) {
    B = choose(Src.size() + 1, "from");
    E = choose(Src.size() + 1, "to");
  }
  llvm::StringRef S(Src.data(), Src.size());
  lspserver::Range R{pos(Src, B), pos(Src, E)};
  std::vector<lspserver::CodeAction> As;
  nixd::addJsonToNixAction(S, R, "file:///d/f.nix", As);
  JParse P{B <= E ? Src.substr(B, E - B) : std::string_view()};
  J *V = P.value();
  P.ws();
  if (P.Unspec)
    symx_stop();
  bool Json = !P.Bad && P.I == P.X.size();
  bool Some = (V->K == '[' || V->K == '{') && !V->C.empty() &&
              (P.X[0] == '[' || P.X[0] == '{');
  // A text or number Nix does not have cannot be converted.
  bool Can = Json && Some && !zeroByte(V) && !huge(V);
  if (Json) // nixd may be more lenient
    CHECK(As.size() == Can, "offered",
          As.empty() ? "no conversion is offered for JSON"
                     : "a conversion is offered for what cannot be");
  if (As.size() != 1)
    return;
  symx_reach("converted");
  const auto &A = As[0];
  bool Ok = A.edit && A.edit->changes && A.edit->changes->size() == 1 &&
            A.edit->changes->begin()->first == "file:///d/f.nix" &&
            A.edit->changes->begin()->second.size() == 1;
  CHECK(Ok, "edit", "not one edit of the text");
  if (!Ok)
    return;
  const lspserver::TextEdit &X = A.edit->changes->begin()->second[0];
  CHECK(X.range.start == R.start && X.range.end == R.end, "edit",
        "what is replaced is not the selection");
  if (!Can)
    return;
  char *M = (char *)symx_malloc(X.newText.size());
  for (size_t I = 0; I < X.newText.size(); I++)
    M[I] = X.newText[I];
  ref::Ref Q(std::string_view(M, X.newText.size()));
  RN *N = Q.parse();
  CHECK(!Q.Bad && !Q.Unspec, "invalid", "the result is no Nix expression");
  if (Q.Bad || Q.Unspec)
    return;
  CHECK(same(V, N), "value", "the expression has another value");
}
