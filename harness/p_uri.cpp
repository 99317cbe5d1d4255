// File URIs.   what: 1 any absolute path of n bytes   2 any URI of n bytes in a
// surrounding
#include "lsp.h"
#include "utf.h"
#include <lspserver/Protocol.h>
#include <lspserver/URI.h>
#include <llvm/Support/Path.h>

using namespace lspserver;
namespace json = llvm::json;

static bool hex(unsigned char C) {
  return (C >= '0' && C <= '9') || (C >= 'a' && C <= 'f') ||
         (C >= 'A' && C <= 'F');
}
static unsigned val(unsigned char C) {
  return C <= '9' ? C - '0' : (C | 32) - 'a' + 10;
}
// RFC 3986: percent decoding; a stray '%' stays
static std::string decode(std::string_view S) {
  std::string R;
  for (size_t I = 0; I < S.size(); I++)
    if (S[I] == '%' && I + 2 < S.size() && hex(S[I + 1]) && hex(S[I + 2])) {
      R.push_back((char)(val(S[I + 1]) * 16 + val(S[I + 2])));
      I += 2;
    } else
      R.push_back(S[I]);
  return R;
}
// Is S a URI as a client may be given it: only characters that need no
// escaping, "%XX" otherwise, and no character that ends the path?
static bool wellFormed(std::string_view S) {
  for (size_t I = 0; I < S.size(); I++) {
    unsigned char C = S[I];
    if (C == '%') {
      if (I + 2 >= S.size() || !hex(S[I + 1]) || !hex(S[I + 2]))
        return false;
      continue;
    }
    bool Ok = (C >= '0' && C <= '9') || (C >= 'a' && C <= 'z') ||
              (C >= 'A' && C <= 'Z');
    for (char K : {'-', '.', '_', '~', '!', '$', '&', '\'', '(', ')', '*', '+',
                   ',', ';', '=', ':', '@', '/'})
      Ok |= C == (unsigned char)K;
    if (!Ok)
      return false;
  }
  return true;
}

static bool back(std::string_view U, std::string &File) {
  URIForFile F;
  json::Path::Root R;
  if (!fromJSON(json::Value(ref(U)), F, R))
    return false;
  File = F.file().str();
  return true;
}

static void paths() {
  static const char *const Pre[] = {"/", "/a", "/c:", "//h/", "/a/b/", "/%"};
  Text T;
  T.s(Pre[choose(6)]);
  for (int I = 0, N = symx_param("n", 2); I < N; I++)
    T.b(1);
  T.s(choose(2) ? "x" : "");
  std::string_view P = T.fin();
  if (!llvm::sys::path::is_absolute(ref(P))) {
    symx_stop();
    return;
  }
  std::string U = URI::createFile(ref(P)).toString();
  CHECK(U.compare(0, 7, "file://") == 0 && wellFormed(U), "form",
        "the URI of a file is not well-formed");
  auto R = URI::resolve(U);
  bool Ok = (bool)R;
  CHECK(Ok && sameBytes(*R, P), "round-trip",
        "the URI of a file is resolved to another file");
  llvm::consumeError(R.takeError());
  std::string F;
  CHECK(back(U, F) && sameBytes(F, P), "round-trip",
        "the URI of a file is resolved to another file");
  // the whole way through the protocol's type
  auto C = URIForFile::canonicalize(ref(P), ref(P));
  CHECK(sameBytes({C.file().data(), C.file().size()}, P), "canonical",
        "a path is changed on its way to the client");
  json::Value J = toJSON(C);
  auto S = J.getAsString();
  CHECK(S && sameBytes({S->data(), S->size()}, U), "canonical",
        "a path is changed on its way to the client");
  auto V = URI::parse(U);
  CHECK(V && V->scheme() == "file" && V->toString() == U, "round-trip",
        "a URI is parsed into another one");
  llvm::consumeError(V.takeError());
  symx_reach("path");
}

static void uris() {
  static const char *const Pre[] = {"file:///",  "file://", "file:", "",
                                    "file:///a%", "test:",  "file:////"};
  static const char *const Post[] = {"", "/x", "5"};
  Text T;
  T.s(Pre[choose(7)]);
  for (int I = 0, N = symx_param("n", 2); I < N; I++)
    putChar(T.B);
  T.s(Post[choose(3)]);
  std::string_view U = T.fin();
  // what it denotes
  size_t Colon = U.find(':');
  bool Valid = Colon != U.npos;
  std::string Scheme, Auth, Body;
  if (Valid) {
    Scheme = decode(U.substr(0, Colon));
    Valid = !Scheme.empty();
    for (size_t I = 0; I < Scheme.size(); I++) {
      unsigned char C = Scheme[I];
      bool Al = (C >= 'a' && C <= 'z') || (C >= 'A' && C <= 'Z');
      bool More = (C >= '0' && C <= '9') || C == '+' || C == '.' || C == '-';
      Valid &= Al || (I > 0 && More);
    }
    std::string_view Rest = U.substr(Colon + 1);
    if (Rest.size() >= 2 && Rest[0] == '/' && Rest[1] == '/') {
      Rest = Rest.substr(2);
      size_t Sl = Rest.find('/');
      if (Sl == Rest.npos)
        Sl = Rest.size();
      Auth = decode(Rest.substr(0, Sl));
      Rest = Rest.substr(Sl);
    }
    Body = decode(Rest);
  }
  auto V = URI::parse(ref(U));
  CHECK((bool)V == Valid, "parse", "a URI is refused, or garbage is taken");
  bool File = Valid && Scheme == "file" && !Body.empty() && Body[0] == '/';
  if (V && Valid) {
    auto eq = [](llvm::StringRef A, const std::string &B) {
      return sameBytes({A.data(), A.size()}, B);
    };
    CHECK(eq(V->scheme(), Scheme) && eq(V->authority(), Auth) &&
              eq(V->body(), Body),
          "parse", "a part of a URI is decoded wrongly");
  }
  llvm::consumeError(V.takeError());
  std::string F;
  bool Got = back(U, F);
  CHECK(Got == File, "resolve",
        "the file of a URI is not found, or one is made up");
  if (Got && File) {
    std::string Want = Auth.empty() ? Body : "//" + Auth + Body;
    CHECK(sameBytes(F, Want), "resolve", "a URI is resolved to another file");
    // and told to the client again
    std::string G;
    URIForFile X;
    json::Path::Root R;
    fromJSON(json::Value(ref(U)), X, R);
    CHECK(back(X.uri(), G) && sameBytes(G, Want), "round-trip",
          "the file of a URI is told to the client as another one");
    symx_reach("uri");
  } else
    symx_reach("no-file");
}

extern "C" void symx_harness() {
  return symx_param("what", 1) == 1 ? paths() : uris();
}
