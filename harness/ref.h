// Reference reader for the Nix expression language, written from the lexer and
// grammar of the Nix manual / libexpr, independently of nixf. It yields a tree
// (RN) that is compared with what nixf::parse yields.
//
// Constructs where nixf documents that it deliberately differs, or that Nix
// itself deprecates, are reported through Unspec and not compared.
#pragma once
#include "hx.h"
#include <memory>

namespace ref {

struct RN {
  // v var, i int, f float, s string, u uri, p path, S spath, ( paren, { attrs,
  // [ list, c call, . select, ? hasattr, b binop, 1 unary, \ lambda, L let,
  // l legacy let, I if, A assert, W with, = binding, n inherit, a attrpath,
  // N name, " literal chunk, $ interpolation, F formals, o formal
  char K = 0;
  int B = 0, E = 0;
  std::vector<RN *> C;
  std::string S;
  std::string M; // literal chunk of an indented string: 1 for escaped bytes
  uint64_t V = 0;
  const void *X = nullptr; // the ExprAttrs it stands for
  RN *add(RN *N) {
    C.push_back(N);
    return this;
  }
};

inline RN *mk(char K, int B, int E) {
  RN *N = new RN();
  N->K = K;
  N->B = B;
  N->E = E;
  return N;
}

enum T : int {
  T_EOF, T_BAD, T_ID, T_INT, T_FLOAT, T_URI, T_PATH, T_SPATH, T_DQ, T_QQ,
  T_DOLLAR, T_LC, T_RC, T_LP, T_RP, T_LB, T_RB, T_SEMI, T_COLON, T_COMMA, T_AT,
  T_Q, T_DOT, T_ELL, T_ASSIGN,
  T_IF, T_THEN, T_ELSE, T_ASSERT, T_WITH, T_LET, T_IN, T_REC, T_INHERIT, T_OR,
  // operators
  O_PIPEL, O_PIPER, O_IMPL, O_OR, O_AND, O_EQ, O_NE, O_LT, O_GT, O_LE, O_GE,
  O_UPD, O_NOT, O_ADD, O_SUB, O_MUL, O_DIV, O_CAT
};

inline bool al(unsigned char C) { return (unsigned)((C | 32) - 'a') < 26; }
inline bool dg(unsigned char C) { return (unsigned)(C - '0') < 10; }
inline bool in(unsigned char C, uint64_t Lo, uint64_t Hi) {
  uint64_t W = C < 64 ? Lo : Hi;
  return (C < 128) & ((W >> (C & 63)) & 1);
}
inline bool pathc(unsigned char C) {
  return al(C) | dg(C) | (C == '.') | (C == '_') | (C == '-') | (C == '+');
}
inline bool idc(unsigned char C) {
  return al(C) | dg(C) | (C == '_') | (C == '\'') | (C == '-');
}
inline bool schemec(unsigned char C) {
  return al(C) | dg(C) | (C == '+') | (C == '-') | (C == '.');
}
inline bool uric(unsigned char C) {
  return al(C) | dg(C) | (C == '%') | (C == '/') | (C == '?') | (C == ':') |
         (C == '@') | (C == '&') | (C == '=') | (C == '+') | (C == '$') |
         (C == ',') | (C == '-') | (C == '_') | (C == '.') | (C == '!') |
         (C == '~') | (C == '*') | (C == '\'');
}

struct Tok {
  T K;
  int B, E;
};

struct Ref {
  std::string_view X;
  int P = 0;
  bool Bad = false;    // not a Nix expression
  bool Unspec = false; // see the head comment
  int LastE = 0;       // end of the last consumed token
  bool Have = false;
  Tok La;
  int Depth = 0;
  // every token, in order (for the tokenisation check)
  std::vector<Tok> *Trace = nullptr;
  bool PipeChain = false; // a |> b |> c or a <| b <| c occurs
  bool SwapPipes = false; // associate pipes the other way around
  explicit Ref(std::string_view X) : X(X) {}

  bool more(int I) const { return I < (int)X.size(); }
  unsigned char at(int I) const { return (unsigned char)X[I]; }
  bool is(int I, char C) const { return more(I) && at(I) == (unsigned char)C; }
  bool is2(int I, char C, char D) const { return is(I, C) && is(I + 1, D); }
  void bad() { Bad = true; }
  void unspec() { Unspec = true; }

  // ---- lexer ---------------------------------------------------------------
  // returns false when the rest is not lexable (unterminated comment)
  void trivia() {
    for (;;) {
      if (!more(P))
        return;
      unsigned char C = at(P);
      if ((C == ' ') | (C == '\t') | (C == '\n')) {
        P++;
        continue;
      }
      if (C == '\r') {
        // a CR that is not part of CR LF is white space like any other
        P++;
        continue;
      }
      if ((C == '\v') | (C == '\f')) {
        unspec(); // nixf takes these for white space, Nix does not
        P++;
        continue;
      }
      if (C == '#') {
        while (more(P) && at(P) != '\n') {
          if (at(P) == '\r' && !is(P + 1, '\n'))
            unspec(); // a lone CR ends a comment in Nix
          P++;
        }
        continue;
      }
      if (C == '/' && is(P + 1, '*')) {
        int Q = P + 2;
        while (more(Q) && !is2(Q, '*', '/'))
          Q++;
        if (!more(Q)) {
          bad();
          P = (int)X.size();
          return;
        }
        P = Q + 2;
        continue;
      }
      return;
    }
  }
  static bool kw(std::string_view V, const char *W) {
    return sameBytes(V, W);
  }
  Tok lex() {
    trivia();
    int B = P;
    if (!more(P))
      return {T_EOF, P, P};
    unsigned char C = at(P);
    auto one = [&](T K) {
      P = B + 1;
      return Tok{K, B, P};
    };
    auto two = [&](T K) {
      P = B + 2;
      return Tok{K, B, P};
    };
    // paths
    int Q = P;
    while (more(Q) && pathc(at(Q)))
      Q++;
    if (is(Q, '/') &&
        ((more(Q + 1) && pathc(at(Q + 1))) || is2(Q + 1, '$', '{')))
      return {T_PATH, B, Q}; // the caller reads the path itself
    if (C == '~' && is(P + 1, '/') &&
        ((more(P + 2) && pathc(at(P + 2))) || is2(P + 2, '$', '{')))
      return {T_PATH, B, P};
    if (al(C)) {
      Q = P + 1;
      while (more(Q) && schemec(at(Q)))
        Q++;
      if (is(Q, ':') && more(Q + 1) && uric(at(Q + 1))) {
        Q++;
        while (more(Q) && uric(at(Q)))
          Q++;
        P = Q;
        return {T_URI, B, P};
      }
    }
    if (al(C) || C == '_') {
      Q = P + 1;
      while (more(Q) && idc(at(Q)))
        Q++;
      P = Q;
      std::string_view V = X.substr(B, Q - B);
      switch (V.size()) {
      case 2:
        if (kw(V, "if"))
          return {T_IF, B, P};
        if (kw(V, "in"))
          return {T_IN, B, P};
        if (kw(V, "or"))
          return {T_OR, B, P};
        break;
      case 3:
        if (kw(V, "let"))
          return {T_LET, B, P};
        if (kw(V, "rec"))
          return {T_REC, B, P};
        break;
      case 4:
        if (kw(V, "then"))
          return {T_THEN, B, P};
        if (kw(V, "else"))
          return {T_ELSE, B, P};
        if (kw(V, "with"))
          return {T_WITH, B, P};
        break;
      case 6:
        if (kw(V, "assert"))
          return {T_ASSERT, B, P};
        break;
      case 7:
        if (kw(V, "inherit"))
          return {T_INHERIT, B, P};
        break;
      }
      return {T_ID, B, P};
    }
    if (dg(C)) {
      Q = P;
      while (more(Q) && dg(at(Q)))
        Q++;
      if (!is(Q, '.')) {
        P = Q;
        return {T_INT, B, P};
      }
      // FLOAT (([1-9][0-9]*\.[0-9]*)|(0?\.[0-9]+))([Ee][+-]?[0-9]+)?
      int Dot = Q++;
      while (more(Q) && dg(at(Q)))
        Q++;
      if (C == '0' && (Dot != B + 1 || Q == Dot + 1))
        unspec(); // "00.5", "0.": nixf reads one float (it says so)
      if (is(Q, 'e') || is(Q, 'E')) {
        int R = Q + 1;
        if (is(R, '+') || is(R, '-'))
          R++;
        if (more(R) && dg(at(R))) {
          while (more(R) && dg(at(R)))
            R++;
          Q = R;
        } else
          unspec(); // "1.5e": nixf reports a missing exponent
      }
      P = Q;
      return {T_FLOAT, B, P};
    }
    switch (C) {
    case '"':
      return one(T_DQ);
    case '\'':
      if (is(P + 1, '\''))
        return two(T_QQ);
      break;
    case '$':
      if (is(P + 1, '{'))
        return two(T_DOLLAR);
      break;
    case '{':
      return one(T_LC);
    case '}':
      return one(T_RC);
    case '(':
      return one(T_LP);
    case ')':
      return one(T_RP);
    case '[':
      return one(T_LB);
    case ']':
      return one(T_RB);
    case ';':
      return one(T_SEMI);
    case ':':
      return one(T_COLON);
    case ',':
      return one(T_COMMA);
    case '@':
      return one(T_AT);
    case '?':
      return one(T_Q);
    case '.':
      if (is2(P + 1, '.', '.')) {
        P = B + 3;
        return {T_ELL, B, P};
      }
      if (more(P + 1) && dg(at(P + 1)))
        unspec(); // ".5": nixf has no floats without an integer part
      return one(T_DOT);
    case '=':
      if (is(P + 1, '='))
        return two(O_EQ);
      return one(T_ASSIGN);
    case '!':
      if (is(P + 1, '='))
        return two(O_NE);
      return one(O_NOT);
    case '<': {
      // SPATH \<{PATH_CHAR}+(\/{PATH_CHAR}+)*\>
      Q = P + 1;
      if (more(Q) && pathc(at(Q))) {
        for (;;) {
          int R = Q;
          while (more(R) && pathc(at(R)))
            R++;
          if (R == Q)
            break;
          if (is(R, '>')) {
            P = R + 1;
            return {T_SPATH, B, P};
          }
          if (!is(R, '/'))
            break;
          Q = R + 1;
        }
      }
      if (is(B + 1, '='))
        return two(O_LE);
      if (is(B + 1, '|'))
        return two(O_PIPEL);
      return one(O_LT);
    }
    case '>':
      if (is(P + 1, '='))
        return two(O_GE);
      return one(O_GT);
    case '&':
      if (is(P + 1, '&'))
        return two(O_AND);
      break;
    case '|':
      if (is(P + 1, '|'))
        return two(O_OR);
      if (is(P + 1, '>'))
        return two(O_PIPER);
      break;
    case '-':
      if (is(P + 1, '>'))
        return two(O_IMPL);
      return one(O_SUB);
    case '+':
      if (is(P + 1, '+'))
        return two(O_CAT);
      return one(O_ADD);
    case '*':
      return one(O_MUL);
    case '/':
      if (is(P + 1, '/'))
        return two(O_UPD);
      return one(O_DIV);
    }
    return one(T_BAD);
  }

  // ---- token stream ----------------------------------------------------------
  Tok peek() {
    if (Bad)
      return {T_EOF, P, P};
    if (!Have) {
      La = lex();
      Have = true;
      if (Bad)
        return {T_EOF, P, P};
    }
    return La;
  }
  void next() {
    peek();
    Have = false;
    LastE = La.E;
    if (Trace)
      Trace->push_back(La);
  }
  bool eat(T K) {
    if (peek().K != K) {
      bad();
      return false;
    }
    next();
    return true;
  }
  // tokens after the current one
  struct Save {
    int P, LastE;
    bool Have, Bad, Unspec;
    Tok La;
    size_t Tr;
  };
  Save save() {
    return {P, LastE, Have, Bad, Unspec, La, Trace ? Trace->size() : 0};
  }
  void back(const Save &S) {
    P = S.P;
    LastE = S.LastE;
    Have = S.Have;
    Bad = S.Bad;
    Unspec = S.Unspec;
    La = S.La;
    if (Trace)
      Trace->resize(S.Tr);
  }

  // ---- strings -----------------------------------------------------------------
  void lit(RN *N, char C, bool Esc = false) {
    if (N->C.empty() || N->C.back()->K != '"')
      N->add(mk('"', 0, 0));
    N->C.back()->S.push_back(C);
    if (N->V)
      N->C.back()->M.push_back(Esc);
  }
  void interp(RN *N) {
    // at ${
    int B = P;
    P += 2;
    Have = false;
    RN *I = mk('$', B, 0);
    I->add(expr());
    if (Bad)
      return;
    if (peek().K != T_RC) {
      bad();
      return;
    }
    // the byte after '}' is read in the string's own mode
    P = La.E;
    Have = false;
    LastE = P;
    I->E = P;
    N->add(I);
  }
  RN *dstring() {
    RN *N = mk('s', La.B, 0);
    Have = false;
    P = La.E;
    LastE = P;
    while (!Bad) {
      if (!more(P)) {
        bad();
        break;
      }
      unsigned char C = at(P);
      if (C == '"') {
        P++;
        LastE = P;
        N->E = P;
        return N;
      }
      if (C == '\\') {
        if (!more(P + 1)) {
          bad();
          break;
        }
        unsigned char D = at(P + 1);
        if (D == 'n')
          D = '\n';
        else if (D == 'r')
          D = '\r';
        else if (D == 't')
          D = '\t';
        lit(N, (char)D);
        P += 2;
        continue;
      }
      if (C == '$') {
        if (is(P + 1, '{')) {
          interp(N);
          continue;
        }
        // \$[^\{\"\\] consumes the next byte too, \$\\{ANY} is an escape
        lit(N, '$');
        P++;
        if (is(P, '$')) {
          lit(N, '$');
          P++;
        }
        continue;
      }
      if (C == '\r')
        unspec(); // Nix turns CR LF into LF
      lit(N, (char)C);
      P++;
    }
    N->E = P;
    return N;
  }
  // Contents before the removal of indentation (and of a blank first line).
  RN *istring() {
    RN *N = mk('s', La.B, 0);
    N->V = 1;
    Have = false;
    P = La.E;
    LastE = P;
    while (!Bad) {
      if (!more(P)) {
        bad();
        break;
      }
      unsigned char C = at(P);
      if (C == '\'' && is(P + 1, '\'')) {
        if (is(P + 2, '$')) {
          lit(N, '$', true);
          P += 3;
          continue;
        }
        if (is(P + 2, '\'')) {
          lit(N, '\'', true);
          lit(N, '\'', true);
          P += 3;
          continue;
        }
        if (is(P + 2, '\\')) {
          if (!more(P + 3)) {
            bad();
            break;
          }
          unsigned char D = at(P + 3);
          if (D == 'n')
            D = '\n';
          else if (D == 'r')
            D = '\r';
          else if (D == 't')
            D = '\t';
          lit(N, (char)D, true);
          P += 4;
          continue;
        }
        P += 2;
        LastE = P;
        N->E = P;
        return N;
      }
      if (C == '$') {
        if (is(P + 1, '{')) {
          interp(N);
          continue;
        }
        lit(N, '$');
        P++;
        if (is(P, '$')) { // \$[^\{\']
          lit(N, '$');
          P++;
        }
        continue;
      }
      if (C == '\'') {
        // \'[^\'\$] : the next byte is taken along
        lit(N, '\'');
        P++;
        continue;
      }
      lit(N, (char)C);
      P++;
    }
    N->E = P;
    return N;
  }
  RN *path() {
    RN *N = mk('p', La.B, 0);
    Have = false;
    P = La.B;
    bool Slash = false;
    if (is(P, '~')) {
      lit(N, '~');
      P++;
    }
    while (!Bad) {
      if (is2(P, '$', '{')) {
        interp(N);
        Slash = false;
        continue;
      }
      if (!more(P))
        break;
      unsigned char C = at(P);
      if (C == '/') {
        if (Slash && is(P + 1, '/'))
          ; // "a/b//c": read on, the end is what matters
        lit(N, '/');
        Slash = true;
        P++;
        continue;
      }
      if (!pathc(C))
        break;
      lit(N, (char)C);
      Slash = false;
      P++;
    }
    if (Slash)
      unspec(); // Nix: "path has a trailing slash"; nixf keeps it
    N->E = P;
    LastE = P;
    return N;
  }

  // ---- grammar -------------------------------------------------------------------
  RN *nothing() {
    bad();
    return mk('!', P, P);
  }
  RN *ident() {
    RN *N = mk('N', peek().B, peek().E);
    N->S = std::string(X.substr(La.B, La.E - La.B));
    next();
    return N;
  }
  RN *attrName() {
    switch (peek().K) {
    case T_OR:
    case T_ID:
      return ident();
    case T_DQ: {
      int B = La.B;
      RN *S = dstring();
      return mk('N', B, LastE)->add(S);
    }
    case T_DOLLAR: {
      int B = La.B;
      P = La.B;
      RN *H = mk('s', B, 0);
      interp(H);
      RN *N = mk('N', B, LastE);
      if (!Bad) {
        N->add(H->C[0]);
        RN *E = H->C[0]->C[0];
        if (E->K == 's' &&
            (E->C.empty() || (E->C.size() == 1 && E->C[0]->K == '"')))
          N->V = 1; // ${"lit"}: Nix folds it into a static name
      }
      return N;
    }
    default:
      return nothing();
    }
  }
  bool startsName(T K) {
    return K == T_OR || K == T_ID || K == T_DQ || K == T_DOLLAR;
  }
  RN *attrPath() {
    RN *N = mk('a', peek().B, 0);
    N->add(attrName());
    while (!Bad && peek().K == T_DOT) {
      next();
      N->add(attrName());
    }
    N->E = LastE;
    return N;
  }
  // binds up to (not including) End
  void binds(RN *Into, T End) {
    while (!Bad && peek().K != End) {
      int B = peek().B;
      if (La.K == T_INHERIT) {
        RN *N = mk('n', B, 0);
        next();
        if (peek().K == T_LP) {
          next();
          N->V = 1;
          N->add(expr());
          eat(T_RP);
        }
        while (!Bad && startsName(peek().K)) {
          RN *A = attrName();
          N->add(A);
          if (!A->C.empty()) {
            if (A->C[0]->K == '$') {
              if (A->V)
                unspec();
              else
                bad();
            } else if (A->C[0]->C.size() > 1 ||
                       (A->C[0]->C.size() == 1 && A->C[0]->C[0]->K != '"'))
              bad(); // dynamic attributes are not allowed in inherit
          }
        }
        eat(T_SEMI);
        N->E = LastE;
        Into->add(N);
        continue;
      }
      if (!startsName(La.K)) {
        bad();
        return;
      }
      RN *N = mk('=', B, 0);
      N->add(attrPath());
      eat(T_ASSIGN);
      if (!Bad)
        N->add(expr());
      eat(T_SEMI);
      N->E = LastE;
      Into->add(N);
    }
  }
  bool startsSimple(T K) {
    switch (K) {
    case T_ID:
    case T_INT:
    case T_FLOAT:
    case T_URI:
    case T_PATH:
    case T_SPATH:
    case T_DQ:
    case T_QQ:
    case T_LP:
    case T_LB:
    case T_LC:
    case T_REC:
    case T_LET:
      return true;
    default:
      return false;
    }
  }
  RN *simple() {
    Tok K = peek();
    switch (K.K) {
    case T_ID: {
      RN *N = mk('v', K.B, K.E);
      N->S = std::string(X.substr(K.B, K.E - K.B));
      next();
      return N;
    }
    case T_INT: {
      RN *N = mk('i', K.B, K.E);
      // decimal, at most 2^63-1
      uint64_t V = 0;
      bool Big = false;
      for (int I = K.B; I < K.E; I++) {
        uint64_t D = at(I) - '0';
        if (K.E - K.B > 18)
          Big |= (V > 922337203685477580ull) |
                 ((V == 922337203685477580ull) & (D > 7));
        V = V * 10 + D;
      }
      N->V = V;
      if (Big)
        bad();
      next();
      return N;
    }
    case T_FLOAT: {
      RN *N = mk('f', K.B, K.E);
      double DV = strtod(std::string(X.substr(K.B, K.E - K.B)).c_str(), nullptr);
      memcpy(&N->V, &DV, 8);
      N->S = std::string(X.substr(K.B, K.E - K.B));
      next();
      return N;
    }
    case T_URI: {
      RN *N = mk('s', K.B, K.E);
      N->add(mk('"', 0, 0));
      N->C[0]->S = std::string(X.substr(K.B, K.E - K.B));
      next();
      return N;
    }
    case T_SPATH: {
      RN *N = mk('S', K.B, K.E);
      N->S = std::string(X.substr(K.B + 1, K.E - K.B - 2));
      next();
      return N;
    }
    case T_PATH:
      return path();
    case T_DQ:
      return dstring();
    case T_QQ:
      return istring();
    case T_LP: {
      RN *N = mk('(', K.B, 0);
      next();
      N->add(expr());
      eat(T_RP);
      N->E = LastE;
      return N;
    }
    case T_LB: {
      RN *N = mk('[', K.B, 0);
      next();
      while (!Bad && peek().K != T_RB) {
        if (!startsSimple(La.K)) {
          bad();
          break;
        }
        N->add(select());
      }
      eat(T_RB);
      N->E = LastE;
      return N;
    }
    case T_REC:
    case T_LC: {
      RN *N = mk('{', K.B, 0);
      if (K.K == T_REC) {
        N->V = 1;
        next();
      }
      eat(T_LC);
      if (!Bad)
        binds(N, T_RC);
      eat(T_RC);
      N->E = LastE;
      return N;
    }
    case T_LET: {
      // let { ... }
      RN *N = mk('l', K.B, 0);
      next();
      eat(T_LC);
      if (!Bad)
        binds(N, T_RC);
      eat(T_RC);
      N->E = LastE;
      unspec(); // deprecated
      return N;
    }
    default:
      return nothing();
    }
  }
  RN *select() {
    RN *E = simple();
    if (Bad)
      return E;
    if (peek().K == T_OR) {
      unspec(); // "e or" is a call in Nix
      bad();
      return E;
    }
    if (peek().K != T_DOT)
      return E;
    next();
    RN *N = mk('.', E->B, 0);
    N->add(E);
    N->add(attrPath());
    if (!Bad && peek().K == T_OR) {
      next();
      if (!startsSimple(peek().K))
        return nothing();
      N->add(select());
    }
    N->E = LastE;
    return N;
  }
  static bool canCall(RN *E) {
    switch (E->K) {
    case 'i':
    case 'f':
    case '{':
    case 's':
    case 'p':
      return false;
    default:
      return true;
    }
  }
  RN *app() {
    if (!startsSimple(peek().K))
      return nothing();
    RN *F = select();
    if (Bad || !startsSimple(peek().K))
      return F;
    if (!canCall(F))
      unspec(); // nixf rejects calling a literal, Nix fails when evaluating
    RN *N = mk('c', F->B, 0);
    N->add(F);
    while (!Bad && startsSimple(peek().K))
      N->add(select());
    N->E = LastE;
    return N;
  }
  // precedence, from the manual's table; higher binds tighter
  static int prec(T K) {
    switch (K) {
    case O_IMPL:
      return 10;
    case O_OR:
      return 20;
    case O_AND:
      return 30;
    case O_EQ:
    case O_NE:
      return 40;
    case O_LT:
    case O_GT:
    case O_LE:
    case O_GE:
      return 50;
    case O_UPD:
      return 60;
    case O_NOT:
      return 70;
    case O_ADD:
    case O_SUB:
      return 80;
    case O_MUL:
    case O_DIV:
      return 90;
    case O_CAT:
      return 100;
    case T_Q:
      return 110;
    default:
      return -1;
    }
  }
  RN *op(int Min) {
    RN *L;
    Tok K = peek();
    if (K.K == O_NOT || K.K == O_SUB) {
      next();
      RN *N = mk('1', K.B, 0);
      N->V = K.K;
      N->add(op(K.K == O_NOT ? 71 : 120));
      N->E = LastE;
      L = N;
    } else
      L = app();
    while (!Bad) {
      K = peek();
      int Pr = prec(K.K);
      if (Pr < 0 || K.K == O_NOT || Pr < Min)
        break;
      if (K.K == T_Q) {
        next();
        if (!startsName(peek().K)) {
          unspec(); // "a ?": nixf accepts this on purpose
          return nothing();
        }
        RN *N = mk('?', L->B, 0);
        N->add(L);
        N->add(attrPath());
        N->E = LastE;
        L = N;
        continue;
      }
      next();
      bool Right = K.K == O_IMPL || K.K == O_UPD || K.K == O_CAT;
      bool Non = Pr == 40 || Pr == 50;
      RN *R = op(Right ? Pr : Pr + 1);
      RN *N = mk('b', L->B, 0);
      N->V = K.K;
      N->add(L);
      N->add(R);
      N->E = LastE;
      if (!Bad && Non && prec(peek().K) == Pr)
        bad(); // non-associative
      L = N;
    }
    return L;
  }
  RN *pipe2(T K, RN *L, RN *R) {
    RN *N = mk('b', L->B, R->E);
    N->V = K;
    N->add(L);
    N->add(R);
    return N;
  }
  // a |> b |> c is (a |> b) |> c, a <| b <| c is a <| (b <| c), the two do not
  // mix
  RN *pipes() {
    std::vector<RN *> L;
    L.push_back(op(0));
    if (Bad)
      return L[0];
    T K = peek().K;
    if (K != O_PIPER && K != O_PIPEL)
      return L[0];
    while (!Bad && peek().K == K) {
      next();
      L.push_back(op(0));
    }
    if (Bad)
      return L[0];
    if (peek().K == O_PIPER || peek().K == O_PIPEL) {
      bad();
      return L[0];
    }
    PipeChain |= L.size() > 2;
    bool Left = (K == O_PIPER) != SwapPipes;
    if (Left) {
      RN *R = L[0];
      for (size_t I = 1; I < L.size(); I++)
        R = pipe2(K, R, L[I]);
      return R;
    }
    RN *R = L.back();
    for (size_t I = L.size() - 1; I-- > 0;)
      R = pipe2(K, L[I], R);
    return R;
  }

  RN *formals() {
    RN *N = mk('F', peek().B, 0);
    eat(T_LC);
    while (!Bad && peek().K != T_RC) {
      RN *F = mk('o', peek().B, 0);
      if (La.K == T_ELL) {
        next();
        F->V = 1;
        F->E = LastE;
        N->add(F);
        if (peek().K != T_RC)
          bad();
        break;
      }
      if (La.K != T_ID) {
        bad();
        break;
      }
      F->add(ident());
      if (peek().K == T_Q) {
        next();
        F->add(expr());
      }
      F->E = LastE;
      N->add(F);
      if (Bad || peek().K == T_RC)
        break;
      eat(T_COMMA);
    }
    eat(T_RC);
    N->E = LastE;
    return N;
  }
  RN *lambdaBody(RN *N) {
    eat(T_COLON);
    if (!Bad)
      N->add(expr());
    N->E = LastE;
    return N;
  }
  // does a formal set start here (at '{')?
  bool looksFormals() {
    Save S = save();
    next();
    bool R = false;
    T K = peek().K;
    if (K == T_ELL)
      R = true;
    else if (K == T_RC) {
      next();
      T Q = peek().K;
      R = Q == T_COLON || Q == T_AT;
    } else if (K == T_ID) {
      next();
      T Q = peek().K;
      if (Q == T_COMMA || Q == T_Q)
        R = true;
      else if (Q == T_RC)
        R = true;
    }
    back(S);
    return R;
  }
  RN *expr() {
    if (Bad)
      return mk('!', P, P);
    if (++Depth > 200) {
      bad();
      return mk('!', P, P);
    }
    RN *R = expr1();
    Depth--;
    return R;
  }
  RN *expr1() {
    Tok K = peek();
    switch (K.K) {
    case T_ID: {
      Save S = save();
      next();
      T Q = peek().K;
      if (Q == T_COLON || Q == T_AT) {
        RN *N = mk('\\', K.B, 0);
        RN *I = mk('N', K.B, K.E);
        I->S = std::string(X.substr(K.B, K.E - K.B));
        N->add(I);
        if (Q == T_AT) {
          next();
          if (peek().K != T_LC)
            return nothing();
          N->add(formals());
        }
        return lambdaBody(N);
      }
      back(S);
      return pipes();
    }
    case T_LC:
      if (looksFormals()) {
        RN *N = mk('\\', K.B, 0);
        N->add(formals());
        if (!Bad && peek().K == T_AT) {
          next();
          if (peek().K != T_ID)
            return nothing();
          N->C.insert(N->C.begin(), ident());
        }
        return lambdaBody(N);
      }
      return pipes();
    case T_IF: {
      RN *N = mk('I', K.B, 0);
      next();
      N->add(expr());
      eat(T_THEN);
      N->add(expr());
      eat(T_ELSE);
      N->add(expr());
      N->E = LastE;
      return N;
    }
    case T_ASSERT:
    case T_WITH: {
      RN *N = mk(K.K == T_WITH ? 'W' : 'A', K.B, 0);
      next();
      N->add(expr());
      eat(T_SEMI);
      N->add(expr());
      N->E = LastE;
      return N;
    }
    case T_LET: {
      Save S = save();
      next();
      if (peek().K == T_LC) {
        back(S);
        unspec();
        return pipes();
      }
      RN *N = mk('L', K.B, 0);
      RN *Bs = mk('{', peek().B, 0);
      binds(Bs, T_IN);
      N->add(Bs);
      eat(T_IN);
      N->add(expr());
      N->E = LastE;
      return N;
    }
    default:
      return pipes();
    }
  }
  RN *parse() {
    if (peek().K == T_EOF && !Bad)
      unspec(); // blank text: no tree and no report, on purpose
    RN *R = expr();
    if (!Bad && peek().K != T_EOF)
      bad();
    return R;
  }
};

} // namespace ref
