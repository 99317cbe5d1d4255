// symx runtime: expression store, shadow memory, path exploration, solver.
// Linked (uninstrumented) into every symbolic executable.
#include "symx.h"
#include <algorithm>
#include <execinfo.h>
#include <array>
#include <cassert>
#include <cctype>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <map>
#include <new>
#include <pthread.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);

// ---------------------------------------------------------------------------
// globals shared with instrumented code
extern "C" {
u32 symx_args[64];
void *symx_callee;
u32 symx_ret[16];
void *symx_ret_fn;
u64 symx_byvals[64];
}

static constexpr unsigned MAXV = 192;
static constexpr u64 ARENA = 0x200000000000ull;
static constexpr u64 HEAPSZ = 512ull << 20;
static constexpr u64 STACKOFF = HEAPSZ;
static constexpr u64 STACKSZ = 64ull << 20;
static constexpr u64 REGSZ = HEAPSZ + STACKSZ;
static constexpr u64 SHADOW = 0x300000000000ull;
static constexpr u64 VALID = 0x400000000000ull;

static u32 *const Shadow = (u32 *)SHADOW;
static u8 *const Valid = (u8 *)VALID;

static bool InRun = false;
static u64 HeapTop = 0;
static u64 StackLow = REGSZ;    // lowest touched shadow in the stack part
static std::unordered_map<u64, u32> *Ext;
static int GuardDepth = 0;
static u64 Ticks = 0, TickLimit = 3000000, TotalTicks = 0;

static const char *OutPath = nullptr;
static std::map<std::string, std::string> *Params;

[[noreturn]] static void fatal(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "symx: ENGINE ERROR: ");
  vfprintf(stderr, fmt, ap);
  fprintf(stderr, "\n");
  va_end(ap);
  fflush(stderr);
  _exit(3);
}

// ---------------------------------------------------------------------------
// expressions
enum Op : u8 {
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ZEXT, SEXT, EXTRACT, CONCAT, ITE, CONST, VAR, OVF
};
struct Node {
  u8 op, w;
  u16 x; // OVF kind
  u32 a, b, c;
  u64 k;
};
struct VarSet {
  u64 m[3];
  bool operator==(const VarSet &o) const {
    return m[0] == o.m[0] && m[1] == o.m[1] && m[2] == o.m[2];
  }
  bool inter(const VarSet &o) const {
    return (m[0] & o.m[0]) | (m[1] & o.m[1]) | (m[2] & o.m[2]);
  }
  void add(const VarSet &o) {
    for (int i = 0; i < 3; i++)
      m[i] |= o.m[i];
  }
  int count() const {
    return __builtin_popcountll(m[0]) + __builtin_popcountll(m[1]) +
           __builtin_popcountll(m[2]);
  }
  int first() const {
    for (int i = 0; i < 3; i++)
      if (m[i])
        return i * 64 + __builtin_ctzll(m[i]);
    return -1;
  }
  bool has(int v) const { return m[v / 64] >> (v % 64) & 1; }
  template <class F> void each(F f) const {
    for (int i = 0; i < 3; i++)
      for (u64 x = m[i]; x; x &= x - 1)
        f(i * 64 + __builtin_ctzll(x));
  }
};

static std::vector<Node> N;
static std::vector<VarSet> NV;
static std::vector<u64> NVal;
static std::vector<u32> NEp;
static std::vector<u64> NH;
static std::vector<u32> NDec; // epoch in which a boolean was decided
static u32 Epoch = 1;

struct NodeKey {
  static u64 hash(const Node &n) {
    u64 h = n.op * 0x9E3779B97F4A7C15ull ^ n.w * 0xC2B2AE3D27D4EB4Full ^ n.x;
    auto mix = [&](u64 v) {
      h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
      h *= 0xff51afd7ed558ccdull;
      h ^= h >> 32;
    };
    mix(n.a);
    mix(n.b);
    mix(n.c);
    mix(n.k);
    return h;
  }
};
static std::vector<u32> HTab;
static u64 HMask;

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 sx(u64 v, unsigned w) {
  return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w);
}

static bool ovf(unsigned kind, unsigned w, u64 a, u64 b) {
  switch (kind) {
  case 0: return ((unsigned __int128)a + b) > mask(w);
  case 1: return a < b;
  case 2: return ((unsigned __int128)a * b) > mask(w);
  default: {
    __int128 x = sx(a, w), y = sx(b, w);
    __int128 r = kind == 3 ? x + y : kind == 4 ? x - y : x * y;
    __int128 lo = -((__int128)1 << (w - 1)), hi = ((__int128)1 << (w - 1)) - 1;
    return r < lo || r > hi;
  }
  }
}
static u64 evalOp(const Node &n, u64 a, u64 b, u64 c) {
  unsigned w = n.w, wa = n.a ? N[n.a].w : 0;
  switch (n.op) {
  case ADD: return (a + b) & mask(w);
  case SUB: return (a - b) & mask(w);
  case MUL: return (a * b) & mask(w);
  case UDIV: return b ? a / b : mask(w);
  case UREM: return b ? a % b : a;
  case SDIV: {
    i64 x = sx(a, w), y = sx(b, w);
    if (!y)
      return x < 0 ? 1 : mask(w);
    if (y == -1)
      return (0 - (u64)x) & mask(w);
    return (u64)(x / y) & mask(w);
  }
  case SREM: {
    i64 x = sx(a, w), y = sx(b, w);
    if (!y)
      return a;
    if (y == -1)
      return 0;
    return (u64)(x % y) & mask(w);
  }
  case AND: return a & b;
  case OR: return a | b;
  case XOR: return a ^ b;
  case SHL: return b >= w ? 0 : (a << b) & mask(w);
  case LSHR: return b >= w ? 0 : a >> b;
  case ASHR: return (u64)(sx(a, w) >> (b >= w ? 63 : b)) & mask(w);
  case EQ: return a == b;
  case ULT: return a < b;
  case ULE: return a <= b;
  case SLT: return sx(a, wa) < sx(b, wa);
  case SLE: return sx(a, wa) <= sx(b, wa);
  case ZEXT: return a;
  case SEXT: return (u64)sx(a, wa) & mask(w);
  case EXTRACT: return (a >> n.k) & mask(w);
  case CONCAT: return ((a << N[n.b].w) | b) & mask(w); // a high
  case ITE: return a ? b : c;
  case OVF: return ovf(n.x, wa, a, b);
  }
  return 0;
}

static std::vector<u64> Model;      // current input values
static std::vector<unsigned> VarW;  // widths of vars (this run)

static void growTab() {
  HMask = HMask ? HMask * 2 + 1 : (1 << 16) - 1;
  HTab.assign(HMask + 1, 0);
  for (u32 i = 1; i < N.size(); i++) {
    u64 h = NodeKey::hash(N[i]) & HMask;
    while (HTab[h])
      h = (h + 1) & HMask;
    HTab[h] = i;
  }
}

static u32 intern(Node n) {
  u64 h = NodeKey::hash(n) & HMask;
  while (u32 id = HTab[h]) {
    const Node &o = N[id];
    if (o.op == n.op && o.w == n.w && o.x == n.x && o.a == n.a && o.b == n.b &&
        o.c == n.c && o.k == n.k)
      return id;
    h = (h + 1) & HMask;
  }
  u32 id = N.size();
  HTab[h] = id;
  VarSet vs{};
  u64 sh = n.op * 0x9E3779B97F4A7C15ull + n.w * 0x632BE59BD9B4E019ull + n.x + n.k * 0xD6E8FEB86659FD93ull;
  auto mix = [&](u64 v) {
    sh ^= v;
    sh *= 0xff51afd7ed558ccdull;
    sh ^= sh >> 29;
    sh *= 0xc4ceb9fe1a85ec53ull;
    sh ^= sh >> 32;
  };
  mix(1);
  for (u32 o : {n.a, n.b, n.c}) {
    if (o) {
      vs.add(NV[o]);
      mix(NH[o]);
    } else
      mix(0x1234567);
  }
  if (n.op == VAR)
    vs.m[n.k / 64] |= 1ull << (n.k % 64);
  N.push_back(n);
  NV.push_back(vs);
  NH.push_back(sh);
  NDec.push_back(0);
  NVal.push_back(0);
  NEp.push_back(0);
  if (N.size() * 2 > HMask)
    growTab();
  return id;
}

// value in the current run
static u64 cur(u32 id) {
  if (NEp[id] == Epoch)
    return NVal[id];
  Node n = N[id];
  u64 v;
  if (n.op == CONST)
    v = n.k;
  else if (n.op == VAR)
    v = Model[n.k];
  else
    v = evalOp(n, n.a ? cur(n.a) : 0, n.b ? cur(n.b) : 0, n.c ? cur(n.c) : 0);
  NVal[id] = v;
  NEp[id] = Epoch;
  return v;
}

static u32 mk(u8 op, unsigned w, u32 a = 0, u32 b = 0, u32 c = 0, u64 k = 0,
              u16 x = 0) {
  Node n{op, (u8)w, x, a, b, c, k};
  u32 id = intern(n);
  cur(id);
  return id;
}
static u32 K(unsigned w, u64 v) { return mk(CONST, w, 0, 0, 0, v & mask(w)); }
static inline bool isK(u32 id) { return N[id].op == CONST; }

static u32 mkExtract(u32 a, unsigned lo, unsigned w);
static u32 mkZext(u32 a, unsigned w);
static u32 mkNot(u32 a);

static u32 mkEq(u32 a, u32 b);
static u32 mkBin(u8 op, u32 a, u32 b);

static u32 mkIte(u32 c, u32 a, u32 b) {
  if (isK(c))
    return N[c].k ? a : b;
  if (a == b)
    return a;
  if (N[a].w == 1 && isK(a) && isK(b))
    return N[a].k ? c : mkNot(c);
  if (N[a].w == 1 && isK(a))
    return N[a].k ? mkBin(OR, c, b) : mkBin(AND, mkNot(c), b);
  if (N[a].w == 1 && isK(b))
    return N[b].k ? mkBin(OR, mkNot(c), a) : mkBin(AND, c, a);
  return mk(ITE, N[a].w, c, a, b);
}

static u32 mkNot(u32 a) {
  if (isK(a))
    return K(1, !N[a].k);
  if (N[a].op == XOR && isK(N[a].b) && N[N[a].b].k == 1 && N[a].w == 1)
    return N[a].a;
  return mk(XOR, 1, a, K(1, 1));
}

static u32 mkEq(u32 a, u32 b) {
  if (a == b)
    return K(1, 1);
  if (isK(a))
    std::swap(a, b);
  Node na = N[a], nb = N[b];
  if (isK(a) && isK(b))
    return K(1, na.k == nb.k);
  if (isK(b)) {
    if (na.w == 1)
      return nb.k ? a : mkNot(a);
    if (na.op == ZEXT) {
      unsigned wi = N[na.a].w;
      if (nb.k > mask(wi))
        return K(1, 0);
      return mkEq(na.a, K(wi, nb.k));
    }
    if (na.op == SEXT) {
      unsigned wi = N[na.a].w;
      if (((u64)sx(nb.k & mask(wi), wi) & mask(na.w)) != nb.k)
        return K(1, 0);
      return mkEq(na.a, K(wi, nb.k));
    }
    if (na.op == CONCAT)
      return mkBin(AND, mkEq(na.a, K(N[na.a].w, nb.k >> N[na.b].w)),
                   mkEq(na.b, K(N[na.b].w, nb.k)));
    if (na.op == ADD && isK(na.b))
      return mkEq(na.a, K(na.w, nb.k - N[na.b].k));
    if (na.op == XOR && isK(na.b))
      return mkEq(na.a, K(na.w, nb.k ^ N[na.b].k));
    if (na.op == SUB && nb.k == 0)
      return mkEq(na.a, na.b);
    if (na.op == ITE) {
      // eq(ite(c,x,y),k) with a constant arm, or the memcmp chain
      if (isK(na.b) || isK(na.c)) {
        u32 e1 = mkEq(na.b, b), e2 = mkEq(na.c, b);
        return mkIte(na.a, e1, e2);
      }
      if (nb.k == 0) {
        // ite(d != 0, d, r) == 0  <=>  d == 0 && r == 0
        u32 d0 = mkEq(na.b, b);
        if (mkNot(d0) == na.a)
          return mkBin(AND, d0, mkEq(na.c, b));
      }
    }
  }
  if (na.op == ZEXT && nb.op == ZEXT && N[na.a].w == N[nb.a].w)
    return mkEq(na.a, nb.a);
  if (na.op == SEXT && nb.op == SEXT && N[na.a].w == N[nb.a].w)
    return mkEq(na.a, nb.a);
  if (na.op == CONCAT && nb.op == CONCAT && N[na.b].w == N[nb.b].w)
    return mkBin(AND, mkEq(na.a, nb.a), mkEq(na.b, nb.b));
  if (!isK(b) && NH[a] > NH[b])
    std::swap(a, b);
  return mk(EQ, 1, a, b);
}

static u32 mkZext(u32 a, unsigned w) {
  Node n = N[a];
  if (n.w == w)
    return a;
  if (isK(a))
    return K(w, n.k);
  if (n.op == ZEXT)
    return mk(ZEXT, w, n.a);
  return mk(ZEXT, w, a);
}
static u32 mkSext(u32 a, unsigned w) {
  Node n = N[a];
  if (n.w == w)
    return a;
  if (isK(a))
    return K(w, (u64)sx(n.k, n.w));
  if (n.op == ZEXT)
    return mkZext(n.a, w);
  if (n.op == SEXT)
    return mk(SEXT, w, n.a);
  return mk(SEXT, w, a);
}
static u32 mkExtract(u32 a, unsigned lo, unsigned w) {
  Node n = N[a];
  if (lo == 0 && n.w == w)
    return a;
  if (isK(a))
    return K(w, n.k >> lo);
  if (n.op == EXTRACT)
    return mkExtract(n.a, n.k + lo, w);
  if (n.op == ZEXT || n.op == SEXT) {
    unsigned wi = N[n.a].w;
    if (lo + w <= wi)
      return mkExtract(n.a, lo, w);
    if (n.op == ZEXT) {
      if (lo >= wi)
        return K(w, 0);
      return mkZext(mkExtract(n.a, lo, wi - lo), w);
    }
    if (lo == 0)
      return mkSext(n.a, w);
  }
  if (n.op == CONCAT) {
    unsigned wb = N[n.b].w;
    if (lo + w <= wb)
      return mkExtract(n.b, lo, w);
    if (lo >= wb)
      return mkExtract(n.a, lo - wb, w);
  }
  if (n.op == ITE && (isK(n.b) || isK(n.c)))
    return mkIte(n.a, mkExtract(n.b, lo, w), mkExtract(n.c, lo, w));
  if (lo == 0 && (n.op == AND || n.op == OR || n.op == XOR || n.op == ADD ||
                  n.op == SUB || n.op == MUL) && w >= 8)
    return mkBin(n.op, mkExtract(n.a, 0, w), mkExtract(n.b, 0, w));
  return mk(EXTRACT, w, a, 0, 0, lo);
}
static u32 mkConcat(u32 hi, u32 lo) {
  Node h = N[hi], l = N[lo];
  if (isK(hi) && isK(lo))
    return K(h.w + l.w, (h.k << l.w) | l.k);
  if (isK(hi) && h.k == 0)
    return mkZext(lo, h.w + l.w);
  if (h.op == EXTRACT && l.op == EXTRACT && h.a == l.a && h.k == l.k + l.w)
    return mkExtract(h.a, l.k, h.w + l.w);
  if (h.op == EXTRACT && h.a == lo && h.k == l.w) // hi part of same source
    return mkExtract(lo, 0, h.w + l.w);
  return mk(CONCAT, h.w + l.w, hi, lo);
}

static u32 mkCmp(u8 op, u32 a, u32 b) { // ULT ULE SLT SLE
  Node na = N[a], nb = N[b];
  if (a == b)
    return K(1, op == ULE || op == SLE);
  if (isK(a) && isK(b)) {
    unsigned w = na.w;
    bool r = op == ULT   ? na.k < nb.k
             : op == ULE ? na.k <= nb.k
             : op == SLT ? sx(na.k, w) < sx(nb.k, w)
                         : sx(na.k, w) <= sx(nb.k, w);
    return K(1, r);
  }
  if (op == ULT && isK(b) && nb.k == 0)
    return K(1, 0);
  if (op == ULE && isK(a) && na.k == 0)
    return K(1, 1);
  if (op == ULT && isK(a) && na.k == 0)
    return mkNot(mkEq(b, a));
  if (op == ULT && isK(b) && nb.k == 1)
    return mkEq(a, K(na.w, 0));
  // signed comparison of zero-extended values is unsigned
  auto nonneg = [](const Node &n) {
    return n.op == ZEXT || (n.op == CONST && !(n.k >> (n.w - 1) & 1));
  };
  if ((op == SLT || op == SLE) && nonneg(na) && nonneg(nb))
    return mkCmp(op == SLT ? ULT : ULE, a, b);
  if (op == ULT || op == ULE) {
    if (na.op == ZEXT && nb.op == ZEXT && N[na.a].w == N[nb.a].w)
      return mkCmp(op, na.a, nb.a);
    if (na.op == ZEXT && isK(b)) {
      unsigned wi = N[na.a].w;
      if (nb.k > mask(wi))
        return K(1, 1);
      return mkCmp(op, na.a, K(wi, nb.k));
    }
    if (nb.op == ZEXT && isK(a)) {
      unsigned wi = N[nb.a].w;
      if (na.k > mask(wi))
        return K(1, 0);
      return mkCmp(op, K(wi, na.k), nb.a);
    }
  }
  if (na.op == ITE && isK(b) && isK(na.b) && isK(na.c))
    return mkIte(na.a, mkCmp(op, na.b, b), mkCmp(op, na.c, b));
  return mk(op, 1, a, b);
}

static u32 mkBin(u8 op, u32 a, u32 b) {
  Node na = N[a], nb = N[b];
  unsigned w = na.w;
  if (isK(a) && isK(b)) {
    Node t{op, (u8)w, 0, a, b, 0, 0};
    return K(w, evalOp(t, na.k, nb.k, 0));
  }
  bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
  if (comm && isK(a)) {
    std::swap(a, b);
    std::swap(na, nb);
  }
  if (isK(b)) {
    u64 k = nb.k, m = mask(w);
    switch (op) {
    case ADD:
      if (!k) return a;
      if (na.op == ADD && isK(na.b))
        return mkBin(ADD, na.a, K(w, k + N[na.b].k));
      break;
    case SUB:
      return mkBin(ADD, a, K(w, 0 - k));
    case MUL:
      if (!k) return b;
      if (k == 1) return a;
      break;
    case UDIV:
      if (k == 1) return a;
      break;
    case AND:
      if (!k) return b;
      if (k == m) return a;
      if (na.op == ZEXT && (k & mask(N[na.a].w)) == mask(N[na.a].w))
        return a;
      if (na.op == AND && isK(na.b))
        return mkBin(AND, na.a, K(w, k & N[na.b].k));
      break;
    case OR:
      if (!k) return a;
      if (k == m) return b;
      break;
    case XOR:
      if (!k) return a;
      if (w == 1)
        return mkNot(a);
      if (na.op == XOR && isK(na.b))
        return mkBin(XOR, na.a, K(w, k ^ N[na.b].k));
      break;
    case SHL:
    case LSHR:
    case ASHR:
      if (!k) return a;
      if (op == LSHR && k < w)
        return mkZext(mkExtract(a, k, w - k), w);
      if (op == SHL && k < w)
        return mkConcat(mkExtract(a, 0, w - k), K(k, 0));
      break;
    }
  }
  if (a == b) {
    if (op == AND || op == OR) return a;
    if (op == XOR || op == SUB) return K(w, 0);
  }
  if (op == OR || op == ADD || op == XOR) {
    // disjoint concat pieces: (hi ++ 0) | zext(lo)
    for (int t = 0; t < 2; t++) {
      u32 x = t ? b : a, y = t ? a : b;
      if (N[x].op == CONCAT && isK(N[x].b) && N[N[x].b].k == 0 &&
          N[y].op == ZEXT && N[N[y].a].w <= N[N[x].b].w)
        return mkConcat(N[x].a, mkZext(N[y].a, N[N[x].b].w));
    }
  }
  if (comm && !isK(b) && NH[a] > NH[b])
    std::swap(a, b);
  return mk(op, w, a, b);
}

// ---------------------------------------------------------------------------
// path recording
struct Dec {
  u32 cond;
  bool taken;
};
static std::vector<Dec> Path;
struct AssertRec {
  u32 cond;
  u32 depth;
  const char *label, *msg;
};
static std::vector<AssertRec> Asserts;
static std::vector<std::pair<unsigned, std::pair<u64, u64>>> dummy_;
struct VarInfo {
  std::string name;
  unsigned w;
  u64 lo, hi;
};
static std::vector<VarInfo> Vars;
static std::vector<u32> VarNode;

static jmp_buf JB;
static ucontext_t MainCtx, HarnCtx;
struct Outcome {
  bool bad = false;
  bool stopped = false;
  std::string label, msg;
};
static Outcome Out;
static std::vector<std::string> Known;
static std::map<std::string, u64> Reach;
static std::set<std::string> RunReach;
static u64 Digest;
static u64 PrefixRoll;
static u32 CheckDepth;
static u64 CheckHash;
static u64 ConcForks = 0, NConcAddr = 0;
static u64 MaxDepthLimit = 200000;
static std::map<std::string, u64> ExternSeen;

[[noreturn]] static void endRun() {
  InRun = false;
  longjmp(JB, 1);
}
[[noreturn]] static void bad(const char *label, const std::string &msg) {
  Out.bad = true;
  Out.label = label;
  Out.msg = msg;
  endRun();
}

static void rollDec(u32 cond, bool taken) {
  u64 h = PrefixRoll ^ NH[cond] ^ (taken ? 0x9E37 : 0x1111);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 31;
  PrefixRoll = h;
}

static bool TraceDec = getenv("SYMX_TRACE_DEC");
static bool FoldCmp;
static void narrow(u32 cond, bool taken);
static void decide(u32 cond, bool taken) {
  // normalise negation
  while (N[cond].op == XOR && N[cond].w == 1 && isK(N[cond].b)) {
    cond = N[cond].a;
    taken = !taken;
  }
  if (isK(cond))
    return;
  if (NDec[cond] == Epoch)
    return;
  NDec[cond] = Epoch;
  if (TraceDec) {
    void *bt[6];
    backtrace_symbols_fd(bt, backtrace(bt, 6), 2);
    write(2, "--\n", 3);
  }
  Path.push_back({cond, taken});
  if (FoldCmp)
    narrow(cond, taken);
  rollDec(cond, taken);
  if (Path.size() == CheckDepth && PrefixRoll != CheckHash)
    fatal("path divergence at depth %u", CheckDepth);
  if (Path.size() > MaxDepthLimit)
    bad("engine-depth", "decision depth limit");
}

extern "C" {

void symx_tick() {
  if (++Ticks > TickLimit && InRun) {
    Ticks = 0;
    bad("nontermination", "step limit exceeded");
  }
}

void symx_br(u32 s, u32 c) {
  if (!s || !InRun)
    return;
  if (cur(s) != c)
    fatal("branch value mismatch");
  decide(s, c);
}

void symx_switch(u32 s, u32 n, const u64 *tab) {
  if (!s || !InRun)
    return;
  u64 v = cur(s);
  unsigned w = N[s].w;
  // destination groups, in order of first appearance; default (0) last
  std::vector<u64> order;
  for (u32 i = 0; i < n; i++)
    if (tab[2 * i + 1] &&
        std::find(order.begin(), order.end(), tab[2 * i + 1]) == order.end())
      order.push_back(tab[2 * i + 1]);
  for (u64 d : order) {
    std::vector<u64> vals;
    for (u32 i = 0; i < n; i++)
      if (tab[2 * i + 1] == d)
        vals.push_back(tab[2 * i]);
    std::sort(vals.begin(), vals.end());
    u32 e = 0;
    bool hit = false;
    for (size_t i = 0; i < vals.size();) {
      size_t j = i;
      while (j + 1 < vals.size() && vals[j + 1] == vals[j] + 1)
        j++;
      u32 r;
      if (i == j)
        r = mkEq(s, K(w, vals[i]));
      else
        r = mkBin(AND, mkCmp(ULE, K(w, vals[i]), s),
                  mkCmp(ULE, s, K(w, vals[j])));
      if (v >= vals[i] && v <= vals[j])
        hit = true;
      e = e ? mkBin(OR, e, r) : r;
      i = j + 1;
    }
    decide(e, hit);
    if (hit)
      return;
  }
}

static bool TraceConc = getenv("SYMX_TRACE_CONC");
void symx_concretize(u32 s) {
  if (!s || !InRun)
    return;
  if (isK(s))
    return;
  ConcForks++;
  if (TraceConc) { // debugging aid
    void *bt[12];
    int k = backtrace(bt, 12);
    backtrace_symbols_fd(bt, k, 2);
    write(2, "--\n", 3);
  }
  // bit by bit, most significant first: every run decides the same conditions
  // in the same order, whatever its value
  u64 v = cur(s);
  for (unsigned i = N[s].w; i-- > 0;)
    decide(mkEq(mkExtract(s, i, 1), K(1, 1)), v >> i & 1);
}

u32 symx_bin(u32 op, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb))
    return 0;
  if (!sa)
    sa = K(w, a);
  if (!sb)
    sb = K(w, b);
  if ((op == UDIV || op == SDIV || op == UREM || op == SREM) && !isK(sb))
    decide(mkEq(sb, K(w, 0)), false);
  u32 r = mkBin(op, sa, sb);
  return isK(r) ? 0 : r;
}
// A comparison of one byte that the path already decides needs no expression.
static bool impliedByDomain(u32 e);
u32 symx_cmp(u32 p, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb))
    return 0;
  if (!sa)
    sa = K(w, a);
  if (!sb)
    sb = K(w, b);
  u32 r;
  switch (p) {
  case 0: r = mkEq(sa, sb); break;
  case 1: r = mkNot(mkEq(sa, sb)); break;
  case 2: r = mkCmp(ULT, sa, sb); break;
  case 3: r = mkCmp(ULE, sa, sb); break;
  case 4: r = mkCmp(ULT, sb, sa); break;
  case 5: r = mkCmp(ULE, sb, sa); break;
  case 6: r = mkCmp(SLT, sa, sb); break;
  case 7: r = mkCmp(SLE, sa, sb); break;
  case 8: r = mkCmp(SLT, sb, sa); break;
  default: r = mkCmp(SLE, sb, sa); break;
  }
  return isK(r) || (FoldCmp && impliedByDomain(r)) ? 0 : r;
}
u32 symx_cast(u32 kind, u32 to, u32 s) {
  if (!s)
    return 0;
  u32 r = kind == 0 ? mkZext(s, to) : kind == 1 ? mkSext(s, to)
                                                : mkExtract(s, 0, to);
  return isK(r) ? 0 : r;
}
u32 symx_ite(u32 w, u32 sc, u32 c, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sc | sa | sb))
    return 0;
  if (!sc)
    return c ? sa : sb;
  if (!sa)
    sa = K(w, a);
  if (!sb)
    sb = K(w, b);
  u32 r = mkIte(sc, sa, sb);
  return isK(r) ? 0 : r;
}
u32 symx_ovf(u32 kind, u32 w, u64 a, u32 sa, u64 b, u32 sb) {
  if (!(sa | sb))
    return 0;
  if (!sa)
    sa = K(w, a);
  if (!sb)
    sb = K(w, b);
  u32 r = mk(OVF, 1, sa, sb, 0, 0, kind);
  return r;
}

// ---- memory ---------------------------------------------------------------
static inline bool inReg(u64 a) { return a - ARENA < REGSZ; }
static inline u32 shGet(u64 a) {
  if (inReg(a))
    return Shadow[a - ARENA];
  if (Ext->empty())
    return 0;
  auto it = Ext->find(a);
  return it == Ext->end() ? 0 : it->second;
}
static inline void shSet(u64 a, u32 v) {
  if (inReg(a)) {
    u64 o = a - ARENA;
    Shadow[o] = v;
    if (o >= STACKOFF && o < StackLow)
      StackLow = o;
    return;
  }
  if (v)
    (*Ext)[a] = v;
  else if (!Ext->empty())
    Ext->erase(a);
}

static void checkAddr(u64 a, u64 n, const char *what) {
  u64 o = a - ARENA;
  if (o < HEAPSZ && n) {
    u8 v0 = Valid[o], v1 = Valid[o + n - 1];
    if (v0 != 1 || v1 != 1) {
      if (!InRun)
        return;
      char buf[128];
      snprintf(buf, sizeof buf, "%s of %llu bytes %s", what,
               (unsigned long long)n,
               (v0 == 2 || v1 == 2) ? "in freed memory"
                                    : "outside any live heap block");
      bad("memory-safety", buf);
    }
  } else if (a < 4096 && n && InRun)
    bad("memory-safety", "null pointer access");
}

u32 symx_load(u64 a, u32 n) {
  if (!InRun)
    return 0;
  checkAddr(a, n, "read");
  u32 w[8];
  u32 any = 0;
  if (inReg(a)) {
    u32 *p = Shadow + (a - ARENA);
    for (u32 i = 0; i < n; i++)
      any |= w[i] = p[i];
  } else {
    if (Ext->empty())
      return 0;
    for (u32 i = 0; i < n; i++)
      any |= w[i] = shGet(a + i);
  }
  if (!any)
    return 0;
  u32 id = w[0] >> 3;
  bool whole = id && (w[0] & 7) == 0 && N[id].w == n * 8;
  for (u32 i = 1; whole && i < n; i++)
    if (w[i] != ((id << 3) | i))
      whole = false;
  u32 r;
  if (whole)
    r = id;
  else {
    r = 0;
    for (u32 i = 0; i < n; i++) {
      u32 b = w[i] ? mkExtract(w[i] >> 3, (w[i] & 7) * 8, 8)
                   : K(8, *(u8 *)(a + i));
      r = i ? mkConcat(b, r) : b;
    }
  }
  u64 act = 0;
  memcpy(&act, (void *)a, n);
  if (cur(r) != act)
    fatal("shadow of memory at %llx size %u disagrees with its contents "
          "(written by uninstrumented code?)", (unsigned long long)a, n);
  return isK(r) ? 0 : r;
}
u32 symx_load(u64 a, u32 n);
static u64 evalWith(u32 id, const u64 *m);
static u32 tableLookup(u32 s, u64 base, u64 size, u32 n);
// a load from the constant array [base, base+size) at a symbolic address
u32 symx_load_tab(u64 a, u32 n, u32 s, u64 base, u64 size) {
  if (s && InRun && n <= 8 && size >= n && size <= 4096) {
    u32 in = mkBin(AND, mkCmp(ULE, K(64, base), s),
                   mkCmp(ULE, s, K(64, base + size - n)));
    bool ok = a >= base && a <= base + size - n;
    if (u32 r = tableLookup(s, base, size, n)) {
      decide(in, ok);
      if (ok)
        return isK(r) ? 0 : r;
    }
  }
  symx_concretize(s);
  return symx_load(a, n);
}
void symx_load_conc(u64 a, u32 n) {
  if (!InRun)
    return;
  checkAddr(a, n, "read");
  for (u32 i = 0; i < n; i++)
    if (u32 w = shGet(a + i)) {
      u32 b = mkExtract(w >> 3, (w & 7) * 8, 8);
      if (cur(b) != *(u8 *)(a + i)) {
        // padding or stale bytes of an untracked store
        continue;
      }
      symx_concretize(b);
    }
}
void symx_store(u64 a, u32 n, u32 s) {
  if (!InRun)
    return;
  checkAddr(a, n, "write");
  if (inReg(a)) {
    u32 *p = Shadow + (a - ARENA);
    u64 o = a - ARENA;
    if (s) {
      for (u32 i = 0; i < n; i++)
        p[i] = (s << 3) | i;
      if (o >= STACKOFF && o < StackLow)
        StackLow = o;
    } else
      for (u32 i = 0; i < n; i++)
        p[i] = 0;
    return;
  }
  if (!s && Ext->empty())
    return;
  for (u32 i = 0; i < n; i++)
    shSet(a + i, s ? (s << 3) | i : 0);
}
void symx_memcpy(u64 d, u64 s, u64 n) {
  if (!InRun || !n)
    return;
  checkAddr(s, n, "copy read");
  checkAddr(d, n, "copy write");
  if (d == s)
    return;
  if (inReg(d) && inReg(s)) {
    memmove(Shadow + (d - ARENA), Shadow + (s - ARENA), n * 4);
    u64 o = d - ARENA;
    if (o >= STACKOFF && o < StackLow)
      StackLow = o;
    return;
  }
  if (d < s)
    for (u64 i = 0; i < n; i++)
      shSet(d + i, shGet(s + i));
  else
    for (u64 i = n; i-- > 0;)
      shSet(d + i, shGet(s + i));
}
void symx_memset(u64 d, u32 s, u64 n) {
  if (!InRun || !n)
    return;
  checkAddr(d, n, "write");
  if (inReg(d) && !s) {
    memset(Shadow + (d - ARENA), 0, n * 4);
    return;
  }
  if (!s && Ext->empty())
    return;
  for (u64 i = 0; i < n; i++)
    shSet(d + i, s ? (s << 3) : 0);
}
void symx_alloca(u64 a, u64 n) {
  if (!InRun)
    return;
  if (inReg(a)) {
    memset(Shadow + (a - ARENA), 0, n * 4);
    return;
  }
}
void symx_byval(u64 d, u64 s, u64 n) {
  if (!InRun)
    return;
  if (s)
    symx_memcpy(d, s, n);
  else
    symx_memset(d, 0, n);
}
void symx_atomic(u64 a, u32 n) {
  if (!InRun)
    return;
  checkAddr(a, n, "atomic access");
  for (u32 i = 0; i < n; i++)
    if (shGet(a + i))
      fatal("atomic access to symbolic memory");
}

// ---- function registry ------------------------------------------------------
struct Mod {
  void **addrs;
  const char **names;
  u8 *entered;
  u64 n;
  const char *file;
};
static std::vector<Mod> *Mods;
static std::unordered_set<void *> *Instr;
void symx_register(void **addrs, const char **names, u8 *entered, u64 n,
                   const char *file) {
  if (!Mods) {
    Mods = new std::vector<Mod>;
    Instr = new std::unordered_set<void *>;
  }
  Mods->push_back({addrs, names, entered, n, file});
  for (u64 i = 0; i < n; i++)
    Instr->insert(addrs[i]);
}

static std::map<std::string, u64> Unsupported;
static const char *ExternOK[] = {
#include "externs.inc"
    nullptr};
static std::unordered_map<void *, bool> *ExternCache;
static bool matchOK(const char *n) {
  for (const char **p = ExternOK; *p; p++) {
    size_t l = strlen(*p);
    if ((*p)[l - 1] == '*' ? !strncmp(*p, n, l - 1) : !strcmp(*p, n))
      return true;
  }
  return false;
}
void symx_precall(void *f, const char *name, u32 nargs) {
  if (!InRun)
    return;
  if (Instr->count(f))
    return;
  for (u32 i = 0; i < nargs; i++)
    if (symx_args[i])
      symx_concretize(symx_args[i]);
  auto it = ExternCache->find(f);
  if (it == ExternCache->end()) {
    Dl_info di;
    std::string nm = name ? name : "";
    if (!name && dladdr(f, &di)) {
      if (di.dli_sname)
        nm = di.dli_sname;
      else if (di.dli_fname && strstr(di.dli_fname, "libstdc++"))
        nm = "unnamed in libstdc++"; // error categories
    }
    bool ok = !nm.empty() && matchOK(nm.c_str());
    bool r = InRun;
    InRun = false;
    if (!ok) {
      // this path leaves what the encoding covers: given up, and reported
      Unsupported[nm]++;
      InRun = r;
      Out.stopped = true;
      endRun();
    }
    (*ExternCache)[f] = true;
    ExternSeen[nm]++;
    InRun = r;
  }
}
} // extern "C"

// ---- heap -------------------------------------------------------------------
static void *arenaAlloc(size_t n, size_t al = 16) {
  u64 o = HeapTop + 32;
  o = (o + al - 1) & ~(u64)(al - 1);
  if (n > (64u << 20) || o + n + 32 > HEAPSZ) {
    if (n > (64u << 20))
      return nullptr;
    bad("memory-exhausted", "more than 512 MiB live allocations");
  }
  *(u64 *)(ARENA + o - 16) = n;
  memset(Valid + o, 1, n);
  memset((void *)(ARENA + o), 0xAA, n);
  HeapTop = o + n;
  return (void *)(ARENA + o);
}
static bool inHeap(void *p) { return (u64)p - ARENA < HEAPSZ; }
static void arenaFree(void *p) {
  u64 o = (u64)p - ARENA;
  u64 n = *(u64 *)(ARENA + o - 16);
  if (!InRun)
    return;
  if (n && Valid[o] == 2)
    bad("memory-safety", "double free");
  if (n && Valid[o] != 1)
    bad("memory-safety", "free of a non-heap pointer");
  memset(Valid + o, 2, n);
}
static inline bool useArena() { return InRun && GuardDepth == 0; }

extern "C" {
void *symx_malloc(size_t n) {
  if (useArena())
    return arenaAlloc(n);
  return __libc_malloc(n);
}
void symx_free(void *p) {
  if (!p)
    return;
  if (inHeap(p))
    arenaFree(p);
  else
    __libc_free(p);
}
void *symx_calloc(size_t a, size_t b) {
  void *p = symx_malloc(a * b);
  memset(p, 0, a * b);
  return p;
}
void *symx_realloc(void *p, size_t n) {
  void *q = symx_malloc(n);
  if (p) {
    size_t o = inHeap(p) ? *(u64 *)((char *)p - 16) : n;
    size_t m = o < n ? o : n;
    memcpy(q, p, m);
    symx_memcpy((u64)q, (u64)p, m);
    symx_free(p);
  }
  return q;
}
}
static void *opnew(size_t n, size_t al = 16) {
  if (useArena()) {
    void *p = arenaAlloc(n, al);
    if (!p)
      throw std::bad_alloc();
    return p;
  }
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1))
                    : __libc_malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
extern "C" {
void *symx_new(size_t n) { return opnew(n); }
void *symx_new_al(size_t n, size_t a) { return opnew(n, a); }
void *symx_new_nt(size_t n, const void *) {
  return useArena() ? arenaAlloc(n) : __libc_malloc(n ? n : 1);
}
}
void operator delete(void *p) noexcept { symx_free(p); }
void operator delete[](void *p) noexcept { symx_free(p); }
void operator delete(void *p, size_t) noexcept { symx_free(p); }
void operator delete[](void *p, size_t) noexcept { symx_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { symx_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { symx_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { symx_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { symx_free(p); }

// static-local initialisation: state that outlives a run
extern "C" int __cxa_guard_acquire(abi::__guard *g) {
  if (*(u8 *)g)
    return 0;
  GuardDepth++;
  return 1;
}
extern "C" void __cxa_guard_release(abi::__guard *g) noexcept {
  *(u8 *)g = 1;
  GuardDepth--;
}
extern "C" void __cxa_guard_abort(abi::__guard *) noexcept { GuardDepth--; }

// ---- failures ---------------------------------------------------------------
extern "C" {
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  if (!InRun) {
    fprintf(stderr, "assert %s %s:%u\n", e, f, l);
    _exit(3);
  }
  bad("assertion", std::string("assert(") + e + ") in " + (fn ? fn : "?"));
}
void symx_glibcxx_fail(const char *file, int line, const char *fn,
                       const char *cond) {
  if (!InRun) {
    fprintf(stderr, "glibcxx assert %s\n", cond);
    _exit(3);
  }
  bad("stdlib-assertion", std::string(cond ? cond : "?") + " in " +
                              (fn ? fn : "?"));
}
void abort() {
  if (InRun)
    bad("abort", "abort() called");
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}
}
namespace std {
void __glibcxx_assert_fail(const char *file, int line, const char *fn,
                           const char *cond) noexcept {
  symx_glibcxx_fail(file, line, fn, cond);
  __builtin_unreachable();
}
} // namespace std
static void onTerminate() {
  if (!InRun)
    _exit(3);
  std::string m = "std::terminate";
  if (auto *t = abi::__cxa_current_exception_type()) {
    m = std::string("uncaught exception of type ") + t->name();
  }
  bad("uncaught-exception", m);
}
static void onSignal(int sig, siginfo_t *si, void *) {
  if (!InRun) {
    signal(sig, SIG_DFL);
    raise(sig);
    _exit(3);
  }
  const char *n = sig == SIGSEGV   ? "segmentation fault"
                  : sig == SIGFPE  ? "arithmetic fault"
                  : sig == SIGILL  ? "undefined behaviour trap"
                  : sig == SIGTRAP ? "undefined behaviour trap"
                                   : "bus error";
  u64 a = (u64)si->si_addr;
  if (sig == SIGSEGV && a - (ARENA + STACKOFF - (1 << 20)) < (2u << 20))
    n = "stack overflow";
  bad(sig == SIGILL || sig == SIGTRAP ? "ub-trap" : "crash", n);
}

// ---------------------------------------------------------------------------
// truth tables over one small variable, constraints, solver
struct Bits {
  u64 m[4];
  bool any() const { return m[0] | m[1] | m[2] | m[3]; }
  bool get(unsigned v) const { return m[v / 64] >> (v % 64) & 1; }
  void set(unsigned v) { m[v / 64] |= 1ull << (v % 64); }
};
static std::unordered_map<u32, Bits> TT;
static std::vector<u64> EvV;
static std::vector<u32> EvE;
static u32 EvEp = 1;
static const u64 *EvModel;
static u64 evalM(u32 id) {
  const Node n = N[id];
  if (n.op == CONST)
    return n.k;
  if (n.op == VAR)
    return EvModel[n.k];
  if (EvE[id] == EvEp)
    return EvV[id];
  u64 v;
  if (n.op == ITE)
    v = evalM(n.a) ? evalM(n.b) : evalM(n.c);
  else
    v = evalOp(n, n.a ? evalM(n.a) : 0, n.b ? evalM(n.b) : 0, 0);
  EvV[id] = v;
  EvE[id] = EvEp;
  return v;
}
static u64 evalWith(u32 id, const u64 *m) {
  if (EvV.size() < N.size()) {
    EvV.resize(N.size() + 1024);
    EvE.resize(N.size() + 1024, 0);
  }
  EvModel = m;
  EvEp++;
  return evalM(id);
}
static std::unordered_map<u64, u32> Tabs;
static const Bits &table(u32 id, int var) {
  auto it = TT.find(id);
  if (it != TT.end())
    return it->second;
  Bits b{};
  u64 m[MAXV] = {0};
  unsigned n = 1u << Vars[var].w;
  for (unsigned v = 0; v < n; v++) {
    m[var] = v;
    if (evalWith(id, m))
      b.set(v);
  }
  return TT.emplace(id, b).first->second;
}

static u32 tableLookup(u32 s, u64 base, u64 size, u32 n) {
  if (NV[s].count() != 1)
    return 0;
  int var = NV[s].first();
  if (Vars[var].w > 8)
    return 0;
  auto &memo = Tabs[(u64)s << 36 ^ base << 4 ^ n];
  if (memo)
    return memo;
  std::map<u64, u64> at; // address -> contents
  std::map<u64, u32> freq;
  u64 m[MAXV] = {0};
  for (u64 v = 0; v < (1u << Vars[var].w); v++) {
    m[var] = v;
    u64 a = evalWith(s, m);
    if (a < base || a > base + size - n)
      continue;
    u64 c = 0;
    memcpy(&c, (void *)a, n);
    if (at.emplace(a, c).second)
      freq[c]++;
  }
  if (at.empty())
    return 0;
  u64 dflt = 0;
  u32 best = 0;
  for (auto &[c, k] : freq)
    if (k > best)
      best = k, dflt = c;
  u32 r = K(n * 8, dflt);
  for (auto &[a, c] : at)
    if (c != dflt)
      r = mkIte(mkEq(s, K(64, a)), K(n * 8, c), r);
  return memo = r;
}

// Values of the byte variables the decisions of this run leave open (param
// "fold": comparisons they already decide get no expression).
static std::vector<Bits> RunDom;
static Bits &runDom(int v) {
  if (RunDom.size() <= (size_t)v)
    RunDom.resize(v + 1);
  return RunDom[v];
}
static void narrow(u32 c, bool taken) {
  if (NV[c].count() != 1 || Vars[NV[c].first()].w > 8)
    return;
  int v = NV[c].first();
  const Bits &t = table(c, v);
  Bits &d = runDom(v);
  for (int i = 0; i < 4; i++)
    d.m[i] &= taken ? t.m[i] : ~t.m[i];
}
static bool impliedByDomain(u32 e) {
  if (NV[e].count() != 1 || Vars[NV[e].first()].w > 8)
    return false;
  int v = NV[e].first();
  const Bits &t = table(e, v), &d = runDom(v);
  bool yes = false, no = false;
  for (int i = 0; i < 4; i++) {
    yes |= (d.m[i] & t.m[i]) != 0;
    no |= (d.m[i] & ~t.m[i]) != 0;
  }
  return yes != no;
}

struct Stats {
  u64 paths, stopped, decisions, sat, unsat, unknown, fd, z3, cacheHit, asserts,
      assertsSym, violations, maxDepth, maxNodes, concForks;
  double z3time;
};
static Stats St;

struct State {
  std::array<Bits, MAXV> dom;
  std::vector<char> domInit;
  std::vector<u32> multi; // positive boolean nodes
  std::vector<VarSet> multiV;
  std::unordered_set<u32> have;
};
static State S;

static bool small(int v) { return Vars[v].w <= 8; }

static void addPart(u32 e) {
  if (isK(e))
    return;
  if (N[e].op == AND && N[e].w == 1) {
    u32 a = N[e].a, b = N[e].b;
    addPart(a);
    addPart(b);
    return;
  }
  if (N[e].op == XOR && N[e].w == 1) { // not
    u32 a = N[e].a;
    if (N[a].op == OR) {
      u32 x = N[a].a, y = N[a].b;
      addPart(mkNot(x));
      addPart(mkNot(y));
      return;
    }
  }
  if (!S.have.insert(e).second)
    return;
  const VarSet vs = NV[e];
  if (vs.count() == 1 && small(vs.first())) {
    int v = vs.first();
    const Bits &t = table(e, v);
    for (int i = 0; i < 4; i++)
      S.dom[v].m[i] &= t.m[i];
    return;
  }
  S.multi.push_back(e);
  S.multiV.push_back(vs);
}

static void stateInit() {
  S.multi.clear();
  S.multiV.clear();
  S.have.clear();
  for (size_t v = 0; v < Vars.size(); v++) {
    Bits b{};
    if (Vars[v].w <= 8) {
      for (u64 x = Vars[v].lo; x <= Vars[v].hi; x++)
        b.set(x);
    }
    S.dom[v] = b;
  }
  for (size_t v = 0; v < Vars.size(); v++)
    if (Vars[v].w > 8) {
      unsigned w = Vars[v].w;
      if (Vars[v].lo)
        addPart(mkCmp(ULE, K(w, Vars[v].lo), VarNode[v]));
      if (Vars[v].hi != mask(w))
        addPart(mkCmp(ULE, VarNode[v], K(w, Vars[v].hi)));
    }
}

static Z3_context Z;
static Z3_solver ZS;
static std::unordered_map<u32, Z3_ast> ZM;
static void z3err(Z3_context c, Z3_error_code e) {
  fatal("z3: %s", Z3_get_error_msg(c, e));
}
static void z3init() {
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(Z, z3err);
  ZS = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
  Z3_solver_inc_ref(Z, ZS);
  Z3_params p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 30000);
  Z3_solver_set_params(Z, ZS, p);
  Z3_params_dec_ref(Z, p);
  ZM.clear();
}
static void z3reset() {
  if (Z) {
    Z3_solver_dec_ref(Z, ZS);
    Z3_del_context(Z);
  }
  z3init();
}
static Z3_ast zbv(u32 id);
static Z3_ast zconst(unsigned w, u64 k) {
  return Z3_mk_unsigned_int64(Z, k, Z3_mk_bv_sort(Z, w));
}
static Z3_ast b2v(Z3_ast b) {
  return Z3_mk_ite(Z, b, zconst(1, 1), zconst(1, 0));
}
static Z3_ast zbool(u32 id) { // for width-1 nodes
  const Node n = N[id];
  switch (n.op) {
  case CONST: return n.k ? Z3_mk_true(Z) : Z3_mk_false(Z);
  case EQ: return Z3_mk_eq(Z, zbv(n.a), zbv(n.b));
  case ULT: return Z3_mk_bvult(Z, zbv(n.a), zbv(n.b));
  case ULE: return Z3_mk_bvule(Z, zbv(n.a), zbv(n.b));
  case SLT: return Z3_mk_bvslt(Z, zbv(n.a), zbv(n.b));
  case SLE: return Z3_mk_bvsle(Z, zbv(n.a), zbv(n.b));
  case AND: {
    Z3_ast x[2] = {zbool(n.a), zbool(n.b)};
    return Z3_mk_and(Z, 2, x);
  }
  case OR: {
    Z3_ast x[2] = {zbool(n.a), zbool(n.b)};
    return Z3_mk_or(Z, 2, x);
  }
  case XOR: return Z3_mk_xor(Z, zbool(n.a), zbool(n.b));
  case ITE: return Z3_mk_ite(Z, zbool(n.a), zbool(n.b), zbool(n.c));
  case OVF: {
    Z3_ast a = zbv(n.a), b = zbv(n.b);
    unsigned w = N[n.a].w;
    bool sg = n.x >= 3;
    unsigned W = w * 2 + 2;
    auto ex = [&](Z3_ast v) {
      return sg ? Z3_mk_sign_ext(Z, W - w, v) : Z3_mk_zero_ext(Z, W - w, v);
    };
    Z3_ast x = ex(a), y = ex(b);
    unsigned k = n.x % 3;
    Z3_ast r = k == 0   ? Z3_mk_bvadd(Z, x, y)
               : k == 1 ? Z3_mk_bvsub(Z, x, y)
                        : Z3_mk_bvmul(Z, x, y);
    Z3_ast t = Z3_mk_extract(Z, w - 1, 0, r);
    return Z3_mk_not(Z, Z3_mk_eq(Z, ex(t), r));
  }
  default:
    return Z3_mk_eq(Z, zbv(id), zconst(1, 1));
  }
}
static Z3_ast zbv(u32 id) {
  auto it = ZM.find(id);
  if (it != ZM.end())
    return it->second;
  const Node n = N[id];
  Z3_ast r;
  switch (n.op) {
  case CONST: r = zconst(n.w, n.k); break;
  case VAR: {
    char nm[16];
    snprintf(nm, sizeof nm, "v%u", (unsigned)n.k);
    r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_bv_sort(Z, n.w));
    break;
  }
  case ADD: r = Z3_mk_bvadd(Z, zbv(n.a), zbv(n.b)); break;
  case SUB: r = Z3_mk_bvsub(Z, zbv(n.a), zbv(n.b)); break;
  case MUL: r = Z3_mk_bvmul(Z, zbv(n.a), zbv(n.b)); break;
  case UDIV: r = Z3_mk_bvudiv(Z, zbv(n.a), zbv(n.b)); break;
  case SDIV: r = Z3_mk_bvsdiv(Z, zbv(n.a), zbv(n.b)); break;
  case UREM: r = Z3_mk_bvurem(Z, zbv(n.a), zbv(n.b)); break;
  case SREM: r = Z3_mk_bvsrem(Z, zbv(n.a), zbv(n.b)); break;
  case SHL: r = Z3_mk_bvshl(Z, zbv(n.a), zbv(n.b)); break;
  case LSHR: r = Z3_mk_bvlshr(Z, zbv(n.a), zbv(n.b)); break;
  case ASHR: r = Z3_mk_bvashr(Z, zbv(n.a), zbv(n.b)); break;
  case AND: r = n.w == 1 ? b2v(zbool(id)) : Z3_mk_bvand(Z, zbv(n.a), zbv(n.b)); break;
  case OR: r = n.w == 1 ? b2v(zbool(id)) : Z3_mk_bvor(Z, zbv(n.a), zbv(n.b)); break;
  case XOR: r = n.w == 1 ? b2v(zbool(id)) : Z3_mk_bvxor(Z, zbv(n.a), zbv(n.b)); break;
  case ZEXT: r = Z3_mk_zero_ext(Z, n.w - N[n.a].w, zbv(n.a)); break;
  case SEXT: r = Z3_mk_sign_ext(Z, n.w - N[n.a].w, zbv(n.a)); break;
  case EXTRACT: r = Z3_mk_extract(Z, n.k + n.w - 1, n.k, zbv(n.a)); break;
  case CONCAT: r = Z3_mk_concat(Z, zbv(n.a), zbv(n.b)); break;
  case ITE: r = n.w == 1 ? b2v(zbool(id)) : Z3_mk_ite(Z, zbool(n.a), zbv(n.b), zbv(n.c)); break;
  default: r = b2v(zbool(id)); break;
  }
  ZM[id] = r;
  return r;
}

struct QRes {
  bool sat;
  std::vector<std::pair<u16, u64>> asg;
};
static std::unordered_map<u64, QRes> QCache;

static Z3_ast domAst(int v) {
  // exact encoding of the domain bitset as a disjunction of ranges
  std::vector<Z3_ast> ors;
  unsigned w = Vars[v].w, n = 1u << w;
  Z3_ast x = zbv(VarNode[v]);
  for (unsigned a = 0; a < n;) {
    if (!S.dom[v].get(a)) {
      a++;
      continue;
    }
    unsigned b = a;
    while (b + 1 < n && S.dom[v].get(b + 1))
      b++;
    if (a == b)
      ors.push_back(Z3_mk_eq(Z, x, zconst(w, a)));
    else {
      Z3_ast c[2] = {Z3_mk_bvule(Z, zconst(w, a), x),
                     Z3_mk_bvule(Z, x, zconst(w, b))};
      ors.push_back(Z3_mk_and(Z, 2, c));
    }
    a = b + 1;
  }
  if (ors.size() == 1)
    return ors[0];
  return Z3_mk_or(Z, ors.size(), ors.data());
}

// Is state /\ q satisfiable? On sat, m (holding a model of the state) is
// updated to a model. useZ3: always let the SMT solver decide (assertions).
static int query(u32 q, std::vector<u64> &m, bool useZ3) {
  if (isK(q))
    return N[q].k ? 1 : 0;
  VarSet vs = NV[q];
  std::vector<u32> sl;
  std::vector<char> used(S.multi.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < S.multi.size(); i++)
      if (!used[i] && S.multiV[i].inter(vs)) {
        used[i] = 1;
        vs.add(S.multiV[i]);
        sl.push_back(S.multi[i]);
        ch = true;
      }
  }
  if (!useZ3 && NV[q].count() == 1 && small(NV[q].first())) {
    int v = NV[q].first();
    const Bits &t = table(q, v);
    Bits d;
    for (int i = 0; i < 4; i++)
      d.m[i] = S.dom[v].m[i] & t.m[i];
    if (!d.any()) {
      St.fd++;
      St.unsat++;
      return 0;
    }
    if (sl.empty()) {
      for (unsigned x = 0; x < 256; x++)
        if (d.get(x)) {
          m[v] = x;
          break;
        }
      St.fd++;
      St.sat++;
      return 1;
    }
    u64 old = m[v];
    std::vector<u32> rel;
    for (u32 e : sl)
      if (NV[e].has(v))
        rel.push_back(e);
    unsigned tried = 0;
    for (unsigned x = 0; x < 256 && tried < 24; x++)
      if (d.get(x)) {
        tried++;
        m[v] = x;
        bool ok = true;
        for (u32 e : rel)
          if (!evalWith(e, m.data())) {
            ok = false;
            break;
          }
        if (ok) {
          St.fd++;
          St.sat++;
          return 1;
        }
      }
    m[v] = old;
  }
  // cache
  std::vector<u64> hs;
  for (u32 e : sl)
    hs.push_back(NH[e]);
  std::sort(hs.begin(), hs.end());
  u64 key = NH[q] * 31 + 7;
  auto mix = [&](u64 v) {
    key ^= v;
    key *= 0xff51afd7ed558ccdull;
    key ^= key >> 32;
  };
  for (u64 h : hs)
    mix(h);
  vs.each([&](int v) {
    mix(v);
    if (small(v))
      for (int i = 0; i < 4; i++)
        mix(S.dom[v].m[i]);
  });
  auto it = QCache.find(key);
  if (it == QCache.end()) {
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_push(Z, ZS);
    vs.each([&](int v) {
      if (small(v))
        Z3_solver_assert(Z, ZS, domAst(v));
    });
    for (u32 e : sl)
      Z3_solver_assert(Z, ZS, zbool(e));
    Z3_solver_assert(Z, ZS, zbool(q));
    Z3_lbool r = Z3_solver_check(Z, ZS);
    QRes res;
    res.sat = r == Z3_L_TRUE;
    if (r == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(Z, ZS);
      Z3_model_inc_ref(Z, zm);
      vs.each([&](int v) {
        Z3_ast o = nullptr;
        Z3_model_eval(Z, zm, zbv(VarNode[v]), true, &o);
        u64 x = 0;
        Z3_get_numeral_uint64(Z, o, &x);
        res.asg.push_back({(u16)v, x});
      });
      Z3_model_dec_ref(Z, zm);
    }
    Z3_solver_pop(Z, ZS, 1);
    St.z3++;
    St.z3time += std::chrono::duration<double>(
                     std::chrono::steady_clock::now() - t0)
                     .count();
    if (r == Z3_L_UNDEF) {
      St.unknown++;
      return -1;
    }
    if (QCache.size() > 400000)
      QCache.clear();
    it = QCache.emplace(key, std::move(res)).first;
  } else
    St.cacheHit++;
  if (it->second.sat) {
    for (auto &[v, x] : it->second.asg)
      m[v] = x;
    // sanity: the model really satisfies the slice
    if (!evalWith(q, m.data()))
      fatal("solver model does not satisfy the query");
    for (u32 e : sl)
      if (!evalWith(e, m.data()))
        fatal("solver model does not satisfy the path");
    St.sat++;
    return 1;
  }
  St.unsat++;
  return 0;
}

// ---------------------------------------------------------------------------
// API
static u32 newVar(const char *name, unsigned w, u64 lo, u64 hi) {
  u32 id = Vars.size();
  if (id >= MAXV)
    fatal("too many symbolic variables");
  Vars.push_back({name, w, lo, hi});
  if (Model.size() <= id)
    Model.resize(id + 1, ~0ull);
  if (Model[id] == ~0ull && !(w == 64 && hi == ~0ull))
    Model[id] = lo;
  // left over from the parent path's variable in this place: unconstrained here
  if (w < 64 && (Model[id] < lo || Model[id] > hi))
    Model[id] = lo;
  u32 n = mk(VAR, w, 0, 0, 0, id);
  if (FoldCmp && w <= 8) {
    Bits b{};
    for (u64 x = lo; x <= hi; x++)
      b.set(x);
    runDom(id) = b;
  }
  VarNode.push_back(n);
  return n;
}
extern "C" {
uint8_t symx_api_u8(const char *name, u8 lo, u8 hi) {
  if (!InRun)
    fatal("api outside run");
  if (lo == hi) {
    symx_ret_fn = nullptr;
    return lo;
  }
  u32 n = newVar(name, 8, lo, hi);
  symx_ret[0] = n;
  symx_ret_fn = (void *)symx_api_u8;
  return cur(n);
}
uint32_t symx_api_u32(const char *name, u32 lo, u32 hi) {
  u32 n = newVar(name, 32, lo, hi);
  symx_ret[0] = n;
  symx_ret_fn = (void *)symx_api_u32;
  return cur(n);
}
uint64_t symx_api_u64(const char *name) {
  u32 n = newVar(name, 64, 0, ~0ull);
  if (Model[n] == ~0ull) {}
  symx_ret[0] = n;
  symx_ret_fn = (void *)symx_api_u64;
  return cur(n);
}
static u32 argShadow(void *self, int i) {
  u32 s = symx_callee == self ? symx_args[i] : 0;
  return s;
}
void symx_api_assume(bool c) {
  u32 s = argShadow((void *)symx_api_assume, 0);
  symx_callee = nullptr;
  if (s)
    decide(s, c);
  if (!c) {
    Out.stopped = true;
    endRun();
  }
}
void symx_stop() {
  Out.stopped = true;
  endRun();
}
void symx_api_assert(bool c, const char *label, const char *msg) {
  u32 s = argShadow((void *)symx_api_assert, 0);
  symx_callee = nullptr;
  St.asserts++;
  if (!c) {
    if (s)
      decide(s, c);
    bad(label, msg);
  }
  if (s) {
    St.assertsSym++;
    Asserts.push_back({s, (u32)Path.size(), label, msg});
  }
}
uint64_t symx_api_conc(u64 v) {
  u32 s = argShadow((void *)symx_api_conc, 0);
  symx_callee = nullptr;
  if (s) {
    if (cur(s) != v)
      fatal("conc mismatch");
    symx_concretize(s);
  }
  symx_ret_fn = nullptr;
  return v;
}
int symx_api_native() { symx_ret_fn = nullptr; return 0; }
void symx_known(const char *id) { Known.push_back(id); }
void symx_reach(const char *l) { RunReach.insert(l); }
void symx_digest(const void *p, size_t n) {
  for (size_t i = 0; i < n; i++)
    Digest = (Digest ^ ((const u8 *)p)[i]) * 0x100000001b3ull;
}
void symx_digest_u64(u64 v) { symx_digest(&v, 8); }
int symx_param(const char *n, int d) {
  auto it = Params->find(n);
  return it == Params->end() ? d : atoi(it->second.c_str());
}
const char *symx_param_str(const char *n, const char *d) {
  auto it = Params->find(n);
  return it == Params->end() ? d : it->second.c_str();
}
void symx_note(const char *, ...) {}
const char *symx_format_double(const char *fmt, double v) {
  static char buf[512];
  snprintf(buf, sizeof buf, fmt, v);
  return buf;
}
double symx_native_strtod(const char *s) { return strtod(s, nullptr); }
size_t symx_native_fmtd(double v, const char *fmt, char *b, size_t n) {
  return snprintf(b, n, fmt, v);
}
float symx_native_strtof(const char *s) { return strtof(s, nullptr); }
}

// ---------------------------------------------------------------------------
// runs
static void harnessEntry() {
  InRun = true;
  symx_harness();
  InRun = false;
  swapcontext(&HarnCtx, &MainCtx);
}

static void runOnce() {
  // reset
  if (HeapTop) {
    memset(Shadow, 0, (HeapTop + 64) * 4);
    memset(Valid, 0, HeapTop + 64);
  }
  if (StackLow < REGSZ) {
    memset(Shadow + StackLow, 0, (REGSZ - StackLow) * 4);
    StackLow = REGSZ;
  }
  HeapTop = 0;
  Ext->clear();
  Ticks = 0;
  GuardDepth = 0;
  Path.clear();
  Asserts.clear();
  Vars.clear();
  VarNode.clear();
  Known.clear();
  RunReach.clear();
  Digest = 0xcbf29ce484222325ull;
  PrefixRoll = 0;
  Out = Outcome();
  Epoch++;
  symx_callee = nullptr;
  symx_ret_fn = nullptr;
  auto *g = (void **)abi::__cxa_get_globals();
  g[0] = nullptr;
  ((unsigned *)g)[2] = 0;
  if (setjmp(JB) == 0) {
    getcontext(&HarnCtx);
    HarnCtx.uc_stack.ss_sp = (void *)(ARENA + STACKOFF + (1 << 20));
    HarnCtx.uc_stack.ss_size = STACKSZ - (1 << 20);
    HarnCtx.uc_link = &MainCtx;
    makecontext(&HarnCtx, harnessEntry, 0);
    swapcontext(&MainCtx, &HarnCtx);
  }
  InRun = false;
  TotalTicks += Ticks;
}

// ---- work sharing -------------------------------------------------------------
struct Item {
  u32 depth;
  u32 n;
  u64 hash;
  u64 m[MAXV];
};
struct Shared {
  pthread_mutex_t mu;
  pthread_cond_t cv;
  u32 count, idle, workers;
  bool done, abort;
  u64 nviol;
  u64 paths;
  double deadline;
  Item q[512];
};
static Shared *Sh;
struct LItem {
  u32 depth;
  u64 hash;
  std::vector<u64> m;
};

struct Viol {
  std::string label, msg, known;
  std::vector<VarInfo> vars;
  std::vector<u64> m;
};
static std::vector<Viol> Viols;
static std::map<std::string, int> VCount;
static std::vector<std::pair<std::vector<std::string>, u64>> Samples;
static std::vector<std::vector<u64>> SampleM;
static std::vector<std::vector<VarInfo>> SampleV;
static u64 SampleSeen;
static u64 Rng = 88172645463325252ull;
static u64 rnd() {
  Rng ^= Rng << 13;
  Rng ^= Rng >> 7;
  Rng ^= Rng << 17;
  return Rng;
}

static double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}

static void record(const std::string &label, const std::string &msg,
                   const std::vector<u64> &m) {
  std::string known;
  for (auto &k : Known)
    known += (known.empty() ? "" : ",") + k;
  St.violations++;
  int &c = VCount[label + "|" + msg + "|" + known];
  if (c++ < 3) {
    Viol v{label, msg, known, Vars, m};
    v.m.resize(Vars.size());
    Viols.push_back(v);
  }
  if (known.empty())
    __atomic_add_fetch(&Sh->nviol, 1, __ATOMIC_RELAXED);
}

static void jstr(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

static void dumpWorker(int w) {
  std::string p = std::string(OutPath) + "." + std::to_string(w);
  FILE *f = fopen(p.c_str(), "w");
  fprintf(f,
          "{\"paths\":%llu,\"stopped\":%llu,\"decisions\":%llu,\"sat\":%llu,"
          "\"unsat\":%llu,\"unknown\":%llu,\"fd\":%llu,\"z3\":%llu,"
          "\"cache\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,"
          "\"violations\":%llu,\"max_depth\":%llu,\"nodes\":%llu,"
          "\"conc_forks\":%llu,\"z3_time\":%.6f,\"ticks\":%llu",
          (unsigned long long)St.paths, (unsigned long long)St.stopped,
          (unsigned long long)St.decisions, (unsigned long long)St.sat,
          (unsigned long long)St.unsat, (unsigned long long)St.unknown,
          (unsigned long long)St.fd, (unsigned long long)St.z3,
          (unsigned long long)St.cacheHit, (unsigned long long)St.asserts,
          (unsigned long long)St.assertsSym, (unsigned long long)St.violations,
          (unsigned long long)St.maxDepth, (unsigned long long)St.maxNodes,
          (unsigned long long)ConcForks, St.z3time,
          (unsigned long long)TotalTicks);
  fprintf(f, ",\"viols\":[");
  for (size_t i = 0; i < Viols.size(); i++) {
    auto &v = Viols[i];
    fprintf(f, "%s{\"label\":", i ? "," : "");
    jstr(f, v.label);
    fprintf(f, ",\"msg\":");
    jstr(f, v.msg);
    fprintf(f, ",\"known\":");
    jstr(f, v.known);
    fprintf(f, ",\"model\":[");
    for (size_t k = 0; k < v.vars.size(); k++) {
      fprintf(f, "%s[", k ? "," : "");
      jstr(f, v.vars[k].name);
      fprintf(f, ",%llu]", (unsigned long long)v.m[k]);
    }
    fprintf(f, "]}");
  }
  fprintf(f, "],\"samples\":[");
  for (size_t i = 0; i < Samples.size(); i++) {
    fprintf(f, "%s{\"digest\":\"%llx\",\"model\":[", i ? "," : "",
            (unsigned long long)Samples[i].second);
    for (size_t k = 0; k < SampleV[i].size(); k++) {
      fprintf(f, "%s[", k ? "," : "");
      jstr(f, SampleV[i][k].name);
      fprintf(f, ",%llu]", (unsigned long long)SampleM[i][k]);
    }
    fprintf(f, "]}");
  }
  fprintf(f, "],\"reach\":{");
  bool first = true;
  for (auto &[k, c] : Reach) {
    fprintf(f, "%s", first ? "" : ",");
    first = false;
    jstr(f, k);
    fprintf(f, ":%llu", (unsigned long long)c);
  }
  fprintf(f, "},\"externs\":[");
  first = true;
  for (auto &[k, c] : ExternSeen) {
    fprintf(f, "%s", first ? "" : ",");
    first = false;
    jstr(f, k);
  }
  fprintf(f, "],\"unsupported\":{");
  first = true;
  for (auto &[k, c] : Unsupported) {
    fprintf(f, "%s", first ? "" : ",");
    first = false;
    jstr(f, k);
    fprintf(f, ":%llu", (unsigned long long)c);
  }
  fprintf(f, "},\"functions\":[");
  first = true;
  std::set<std::string> seen;
  for (auto &m : *Mods)
    for (u64 i = 0; i < m.n; i++)
      if (m.entered[i] && seen.insert(m.names[i]).second) {
        fprintf(f, "%s", first ? "" : ",");
        first = false;
        jstr(f, m.names[i]);
      }
  fprintf(f, "]}\n");
  fclose(f);
}

static std::vector<LItem> Local;

static void pushShared() { // called with lock held
  while (Sh->count < Sh->workers && Local.size() > 1) {
    LItem &li = Local.front();
    Item &it = Sh->q[Sh->count++];
    it.depth = li.depth;
    it.hash = li.hash;
    it.n = li.m.size();
    memcpy(it.m, li.m.data(), it.n * 8);
    Local.erase(Local.begin());
    pthread_cond_signal(&Sh->cv);
  }
}
static bool popWork(LItem &out) {
  if (!Local.empty()) {
    if (Sh->count < Sh->workers && Local.size() > 1 &&
        __atomic_load_n(&Sh->idle, __ATOMIC_RELAXED)) {
      pthread_mutex_lock(&Sh->mu);
      pushShared();
      pthread_mutex_unlock(&Sh->mu);
    }
    out = std::move(Local.back());
    Local.pop_back();
    return !Sh->done;
  }
  pthread_mutex_lock(&Sh->mu);
  for (;;) {
    if (Sh->done) {
      pthread_mutex_unlock(&Sh->mu);
      return false;
    }
    if (Sh->count) {
      Item &it = Sh->q[--Sh->count];
      out.depth = it.depth;
      out.hash = it.hash;
      out.m.assign(it.m, it.m + it.n);
      pthread_mutex_unlock(&Sh->mu);
      return true;
    }
    Sh->idle++;
    if (Sh->idle == Sh->workers) {
      Sh->done = true;
      pthread_cond_broadcast(&Sh->cv);
      pthread_mutex_unlock(&Sh->mu);
      return false;
    }
    pthread_cond_wait(&Sh->cv, &Sh->mu);
    Sh->idle--;
  }
}

static u64 NodeLimit = 3000000;
static void resetNodes() {
  N.clear();
  NV.clear();
  NVal.clear();
  NEp.clear();
  NH.clear();
  NDec.clear();
  EvE.clear();
  EvV.clear();
  TT.clear();
  Tabs.clear();
  N.push_back(Node{CONST, 1, 0, 0, 0, 0, 99});
  NV.push_back({});
  NVal.push_back(0);
  NEp.push_back(0);
  NH.push_back(0);
  NDec.push_back(0);
  std::fill(HTab.begin(), HTab.end(), 0);
  if (HTab.empty())
    growTab();
  z3reset();
}

static u64 MaxViol = 20;

static void worker(int w) {
  stack_t ss{};
  ss.ss_size = 256 * 1024;
  ss.ss_sp = __libc_malloc(ss.ss_size);
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_sigaction = onSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTRAP})
    sigaction(s, &sa, nullptr);
  std::set_terminate(onTerminate);
  z3init();
  Rng ^= (w + 1) * 0x9E3779B97F4A7C15ull;
  LItem it;
  bool complete = true;
  while (popWork(it)) {
    if (N.size() > NodeLimit)
      resetNodes();
    Model = it.m;
    CheckDepth = it.depth;
    CheckHash = it.hash;
    runOnce();
    if (Path.size() < it.depth)
      fatal("run ended before its flipped decision (depth %u of %u): %s %s",
            (unsigned)Path.size(), it.depth, Out.label.c_str(),
            Out.msg.c_str());
    St.paths++;
    u64 tot = __atomic_add_fetch(&Sh->paths, 1, __ATOMIC_RELAXED);
    if (Out.stopped)
      St.stopped++;
    St.maxDepth = std::max<u64>(St.maxDepth, Path.size());
    St.maxNodes = std::max<u64>(St.maxNodes, N.size());
    for (auto &r : RunReach)
      Reach[r]++;
    Model.resize(Vars.size());
    if (Out.bad)
      record(Out.label, Out.msg, Model);
    else if (!Out.stopped && Known.empty()) {
      // reservoir of path models for validation on the native build
      SampleSeen++;
      size_t cap = 6, slot = ~0ull;
      if (Samples.size() < cap) {
        slot = Samples.size();
        Samples.emplace_back();
        SampleM.emplace_back();
        SampleV.emplace_back();
      } else if (u64 r = rnd() % SampleSeen; r < cap)
        slot = r;
      if (slot != ~0ull) {
        Samples[slot] = {{}, Digest};
        SampleM[slot] = Model;
        SampleV[slot] = Vars;
      }
    }
    stateInit();
    size_t ai = 0;
    u64 roll = 0;
    PrefixRoll = 0;
    auto doAsserts = [&](size_t depth) {
      for (; ai < Asserts.size() && Asserts[ai].depth <= depth; ai++) {
        if (depth < it.depth)
          continue; // decided by the parent path
        std::vector<u64> m = Model;
        int r = query(mkNot(Asserts[ai].cond), m, true);
        if (r == 1)
          record(Asserts[ai].label, Asserts[ai].msg, m);
        if (r < 0)
          complete = false;
      }
    };
    for (size_t i = 0; i < Path.size(); i++) {
      doAsserts(i);
      u32 c = Path[i].cond;
      u32 pos = Path[i].taken ? c : mkNot(c);
      if (i >= it.depth) {
        St.decisions++;
        std::vector<u64> m = Model;
        u32 neg = Path[i].taken ? mkNot(c) : c;
        int r = query(neg, m, false);
        if (r == 1) {
          u64 save = PrefixRoll;
          rollDec(c, !Path[i].taken);
          Local.push_back({(u32)i + 1, PrefixRoll, std::move(m)});
          PrefixRoll = save;
        } else if (r < 0)
          complete = false;
      }
      rollDec(c, Path[i].taken);
      addPart(pos);
    }
    doAsserts(Path.size());
    (void)roll;
    if (Sh->nviol >= MaxViol || (tot % 64 == 0 && now() > Sh->deadline)) {
      Sh->abort = true;
      pthread_mutex_lock(&Sh->mu);
      Sh->done = true;
      pthread_cond_broadcast(&Sh->cv);
      pthread_mutex_unlock(&Sh->mu);
    }
  }
  St.concForks = ConcForks;
  (void)complete;
  dumpWorker(w);
}

int main(int argc, char **argv) {
  int W = 8;
  double tl = 600;
  Params = new std::map<std::string, std::string>;
  Ext = new std::unordered_map<u64, u32>;
  ExternCache = new std::unordered_map<void *, bool>;
  OutPath = "/dev/null";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-j")
      W = atoi(argv[++i]);
    else if (a == "-t")
      tl = atof(argv[++i]);
    else if (a == "-o")
      OutPath = argv[++i];
    else if (a == "-maxviol")
      MaxViol = atoi(argv[++i]);
    else if (a == "-ticks")
      TickLimit = atoll(argv[++i]);
    else if (a == "-seed")
      Rng += atoll(argv[++i]) * 7919;
    else if (a.find('=') != std::string::npos)
      (*Params)[a.substr(0, a.find('='))] = a.substr(a.find('=') + 1);
      FoldCmp = Params->count("fold");
      if (Params->count("ticks")) // thousands
        TickLimit = atoll((*Params)["ticks"].c_str()) * 1000;
  }
  auto map = [](u64 addr, u64 n) {
    void *p = mmap((void *)addr, n, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                       MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)addr)
      fatal("mmap");
  };
  map(ARENA, REGSZ);
  map(SHADOW, REGSZ * 4);
  map(VALID, HEAPSZ + 4096);
  mprotect((void *)(ARENA + STACKOFF), 1 << 20, PROT_NONE);
  Sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                      MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pthread_mutexattr_t ma;
  pthread_mutexattr_init(&ma);
  pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&Sh->mu, &ma);
  pthread_condattr_t ca;
  pthread_condattr_init(&ca);
  pthread_condattr_setpshared(&ca, PTHREAD_PROCESS_SHARED);
  pthread_cond_init(&Sh->cv, &ca);
  Sh->workers = W;
  double t0 = now();
  Sh->deadline = t0 + tl;
  Sh->q[0].n = 0;
  Sh->q[0].depth = 0;
  Sh->count = 1;
  growTab();
  resetNodes();
  std::vector<pid_t> pids;
  fflush(stdout);
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      worker(w);
      fflush(stdout);
      _exit(0);
    }
    pids.push_back(p);
  }
  int rc = 0;
  for (int left = W; left > 0; left--) {
    int st;
    pid_t p = wait(&st);
    if (p < 0)
      break;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      fprintf(stderr, "symx: worker ended with status %x\n", st);
      rc = 3;
      for (pid_t q : pids)
        if (q != p)
          kill(q, SIGKILL);
    }
  }
  FILE *f = fopen(OutPath, "w");
  fprintf(f, "{\"rc\":%d,\"exhausted\":%s,\"time\":%.3f,\"workers\":%d}\n", rc,
          (rc == 0 && !Sh->abort) ? "true" : "false", now() - t0, W);
  fclose(f);
  return rc;
}
//
