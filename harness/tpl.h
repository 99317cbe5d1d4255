// Texts with symbolic parts, from the template given as parameter "tpl".
//   `  any byte                     ^  any byte but { } " ' ` \n
//   O  binary operator or "?"       U  unary operators: none - !
//   T  trivia: none, blank, newline, comments
//   N  one symbolic letter a..c     M  one symbolic letter a..b
//   A  attribute name: N, "N", ${N} D  digit
//   V  value: 1 {} {a=1;} rec{a=b;} {a.b=1;} ({a=1;}) "s" x
//   W  binding: A=V; A.A=V; inherit N; inherit (x) N;
//   E  expression atom (see below)  K  any token of the language
//   F  formal: [,] N / N?1 / ... / nothing
//   X  nested expression, one level (see below)
//   S  one item of string text
//   Y  a name: a, b or one of a few builtins and constants
//   Z  a small expression with names and scopes; R: with nested scopes
// every other character stands for itself; "\" quotes the next one.
#pragma once
#include "hx.h"

struct Tpl {
  Text T;
  uint8_t Hi = 255; // greatest value of "`" and of the bytes of "S"
  void pick(const char *const *L, unsigned N) { T.s(L[choose(N)]); }
  bool Conc = symx_param("conc", 0); // decide names, one path each
  void name(char Hi) {
    if (Conc)
      T.c((char)('a' + choose(Hi - 'a' + 1)));
    else
      T.b('a', (uint8_t)Hi);
  }
  void attr() {
    switch (choose(3)) {
    case 0:
      name('b');
      break;
    case 1:
      T.c('"');
      name('b');
      T.c('"');
      break;
    default:
      T.s("${");
      name('b');
      T.c('}');
    }
  }
  void value() {
    static const char *const L[] = {"1",       "{}",      "{a=1;}",
                                    "rec{b=a;}", "{a.b=1;}", "({a=1;})",
                                    "{inherit a;}", "{${x}=1;}"};
    pick(L, 8);
  }
  void bind() {
    switch (choose(5)) {
    case 0:
      attr();
      T.c('=');
      value();
      T.c(';');
      break;
    case 1:
      attr();
      T.c('.');
      attr();
      T.c('=');
      value();
      T.c(';');
      break;
    case 2:
      T.s("inherit ");
      name('b');
      T.c(';');
      break;
    case 3:
      T.s("inherit (x) ");
      attr();
      T.c(';');
      break;
    default:
      T.s("inherit \"");
      name('b');
      T.s("\" ");
      name('b');
      T.c(';');
    }
  }
  void atom() {
    static const char *const L[] = {
        "a", "1", "1.5", "\"s\"", "''s''", "./p", "<p>", "http:a",
        "(a)", "[a 1]", "{a=1;}", "rec{a=1;}", "a.b", "a.b or c", "f a",
        "a:b", "{a}:a", "a@{b}:c", "if a then b else c", "let a=1;in a",
        "with a;b", "assert a;b", "\"${a}\"", "-a", "!a", "a?b"};
    pick(L, 26);
  }
  void nested() {
    // a few shapes with a symbolic variable inside
    static const char *const P[] = {"", "(", "[", "{a=", "b: ", "{a,b}:",
                                    "let b=c;in ", "with c;", "rec{b=",
                                    "{c?"};
    static const char *const Q[] = {"", ")", "]", ";}", "", "", "", "", ";}",
                                    "}:a"};
    unsigned I = choose(10);
    T.s(P[I]);
    name('c');
    T.s(Q[I]);
  }
  void token() {
    static const char *const L[] = {
        "a", "b", "1", "2.5", "./p", "~/p", "<p>", "a:b", "\"", "''", "${",
        "{", "}", "(", ")", "[", "]", ";", ":", ",", "@", "?", ".", "...", "=",
        "if", "then", "else", "assert", "with", "let", "in", "rec", "inherit",
        "or", "|>", "<|", "->", "||", "&&", "==", "!=", "<", ">", "<=", ">=",
        "//", "!", "+", "-", "*", "/", "++"};
    pick(L, sizeof(L) / sizeof(L[0]));
  }
  void formal() {
    if (choose(2))
      T.c(',');
    switch (choose(4)) {
    case 0:
      name('b');
      break;
    case 1:
      name('b');
      T.s("?1");
      break;
    case 2:
      T.s("...");
      break;
    default:
      T.c(' ');
    }
    T.c(' ');
  }
  void str() {
    static const char *const L[] = {"${a}", "$", "\\", "''", "'", "\n", "{",
                                    "\"", " ", "}"};
    unsigned I = choose(11);
    if (I == 10)
      T.b(0, Hi);
    else
      T.s(L[I]);
  }
  void known() {
    static const char *const L[] = {"a", "b", "x", "y", "map", "true",
                                    "builtins", "__x"};
    pick(L, 8);
  }
  void scoped(int Dep) {
    unsigned I = choose(Dep ? 15 : 2);
    switch (I) {
    case 0:
      name('b');
      return;
    case 1:
      T.s("1");
      return;
    case 2:
      T.s("(");
      name('b');
      T.s(": ");
      scoped(Dep - 1);
      T.s(")");
      return;
    case 3:
      T.s("({");
      name('b');
      T.s("?");
      name('b');
      T.s("}: ");
      scoped(Dep - 1);
      T.s(")");
      return;
    case 4:
      T.s("(let ");
      name('b');
      T.s("=");
      scoped(Dep - 1);
      T.s(";in ");
      name('b');
      T.s(")");
      return;
    case 5:
      T.s("rec{");
      name('b');
      T.s("=");
      scoped(Dep - 1);
      T.s(";}");
      return;
    case 6:
      T.s("(with ");
      name('b');
      T.s("; ");
      scoped(Dep - 1);
      T.s(")");
      return;
    case 7:
      T.s("{inherit ");
      name('b');
      T.s(";}");
      return;
    case 8:
      T.s("rec{inherit (");
      scoped(Dep - 1);
      T.s(") ");
      name('b');
      T.s(" c;}");
      return;
    case 9:
      T.s("{${");
      scoped(Dep - 1);
      T.s("}=");
      name('b');
      T.s(";}");
      return;
    case 10:
      T.s("(let inherit ");
      name('b');
      T.s(";in ");
      scoped(Dep - 1);
      T.s(")");
      return;
    case 11:
      T.s("{");
      name('b');
      T.s(".c=");
      scoped(Dep - 1);
      T.s(";}");
      return;
    case 12:
      T.s("({");
      name('b');
      T.s("}@c: ");
      scoped(Dep - 1);
      T.s(")");
      return;
    case 13:
      T.s("\"${");
      scoped(Dep - 1);
      T.s("}\"");
      return;
    default:
      T.s("(");
      name('b');
      T.s(".${");
      scoped(Dep - 1);
      T.s("} or b)");
      return;
    }
  }
  std::string_view make(const char *P) {
    static const char *const Ops[] = {
        "|>", "<|", "->", "||", "&&", "==", "!=", "<", ">",  "<=",
        ">=", "//", "+",  "-",  "*",  "/",  "++", "?", " ", " or "};
    static const char *const Un[] = {"", "-", "!"};
    static const char *const Tr[] = {"", " ", "\n", "/*x*/", "#x\n", "\t\r\n"};
    for (; *P; P++) {
      switch (*P) {
      case '\\':
        P++;
        if (!*P)
          break;
        T.c(*P == 'n' ? '\n' : *P);
        break;
      case '`':
        T.b(0, Hi);
        break;
      case 'O':
        T.c(' ');
        pick(Ops, 18);
        T.c(' ');
        break;
      case 'U':
        pick(Un, 3);
        break;
      case 'T':
        pick(Tr, 6);
        break;
      case 'N':
        name('c');
        break;
      case 'M':
        name('b');
        break;
      case 'A':
        attr();
        break;
      case 'D':
        T.b('0', '9');
        break;
      case 'V':
        value();
        break;
      case 'W':
        bind();
        break;
      case 'E':
        atom();
        break;
      case 'X':
        nested();
        break;
      case 'K':
        token();
        break;
      case 'F':
        formal();
        break;
      case 'S':
        str();
        break;
      case 'Y':
        known();
        break;
      case 'Z':
        scoped(1);
        break;
      case 'R':
        scoped(2);
        break;
      default:
        T.c(*P);
      }
      if (!*P)
        break;
    }
    return T.fin();
  }
};
