// Native side of the harness API: replays one concrete input on the plain
// (sanitised) build of the repository's sources.
#include "symx.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <vector>

static std::vector<std::pair<std::string, uint64_t>> In;
static size_t Pos;
static std::map<std::string, std::string> Params;
static uint64_t Digest = 0xcbf29ce484222325ull;

static uint64_t next(const char *name, uint64_t lo, uint64_t hi) {
  uint64_t v = lo;
  if (Pos < In.size())
    v = In[Pos++].second;
  if (v < lo || v > hi) {
    fprintf(stderr, "replay: value of %s out of range\n", name);
    _exit(4);
  }
  return v;
}
extern "C" {
uint8_t symx_api_u8(const char *n, uint8_t lo, uint8_t hi) {
  if (lo == hi)
    return lo;
  return next(n, lo, hi);
}
uint32_t symx_api_u32(const char *n, uint32_t lo, uint32_t hi) {
  return next(n, lo, hi);
}
uint64_t symx_api_u64(const char *n) { return next(n, 0, ~0ull); }
void symx_api_assume(bool c) {
  if (!c)
    symx_stop();
}
void symx_stop() {
  printf("REPLAY-STOPPED\n");
  fflush(stdout);
  _exit(0);
}
void symx_api_assert(bool c, const char *l, const char *m) {
  if (c)
    return;
  printf("REPLAY-VIOLATION %s: %s\n", l, m);
  fflush(stdout);
  _exit(1);
}
uint64_t symx_api_conc(uint64_t v) { return v; }
int symx_api_native() { return 1; }
void symx_known(const char *id) { printf("REPLAY-KNOWN %s\n", id); }
void symx_reach(const char *) {}
void symx_digest(const void *p, size_t n) {
  for (size_t i = 0; i < n; i++)
    Digest = (Digest ^ ((const unsigned char *)p)[i]) * 0x100000001b3ull;
}
void symx_digest_u64(uint64_t v) { symx_digest(&v, 8); }
int symx_param(const char *n, int d) {
  auto it = Params.find(n);
  return it == Params.end() ? d : atoi(it->second.c_str());
}
const char *symx_param_str(const char *n, const char *d) {
  auto it = Params.find(n);
  return it == Params.end() ? d : it->second.c_str();
}
void symx_note(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  vprintf(f, ap);
  va_end(ap);
  printf("\n");
}
void *symx_malloc(size_t n) { return malloc(n); }
void symx_free(void *p) { free(p); }
}
static void onTerm() {
  const char *n = "?";
  if (auto *t = abi::__cxa_current_exception_type())
    n = t->name();
  printf("REPLAY-VIOLATION uncaught-exception: %s\n", n);
  fflush(stdout);
  _exit(1);
}
// replay FILE   (lines "name value"; "param name value")
int main(int argc, char **argv) {
  std::set_terminate(onTerm);
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#')
      continue;
    size_t s = line.find(' ');
    std::string a = line.substr(0, s);
    if (a == "param") {
      size_t t = line.find(' ', s + 1);
      Params[line.substr(s + 1, t - s - 1)] = line.substr(t + 1);
      continue;
    }
    In.push_back({a, strtoull(line.c_str() + s + 1, nullptr, 10)});
  }
  if (argc > 2)
    alarm(atoi(argv[2]));
  symx_harness();
  printf("REPLAY-OK digest=%llx\n", (unsigned long long)Digest);
  return 0;
}
