// Harness API. The same harness is compiled twice: instrumented (symbolic) and
// natively (replay of one concrete input on the plain build of the sources).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// Fresh symbolic values, range inclusive.
uint8_t symx_api_u8(const char *name, uint8_t lo, uint8_t hi);
uint32_t symx_api_u32(const char *name, uint32_t lo, uint32_t hi);
uint64_t symx_api_u64(const char *name);
void symx_api_assume(bool c);
// Property assertion: for a symbolic condition the solver decides it over every
// value on the path.
void symx_api_assert(bool c, const char *label, const char *msg);
// Concretise (forks over every feasible value).
uint64_t symx_api_conc(uint64_t v);
// 1 if this run is a native replay
int symx_api_native(void);
// Mark that the (path-)condition of a listed finding holds on this run.
void symx_known(const char *id);
// Reachability witness: every harness must reach its witnesses.
void symx_reach(const char *label);
// Feed observable output; compared between the symbolic and the native run.
void symx_digest(const void *p, size_t n);
void symx_digest_u64(uint64_t v);
// End this run silently (assumption violated).
void symx_stop(void);
int symx_param(const char *name, int dflt);
const char *symx_param_str(const char *name, const char *dflt);
void symx_note(const char *fmt, ...);
// a buffer whose out-of-bounds accesses are detected
void *symx_malloc(size_t n);
void symx_free(void *);
void symx_harness(void);
}
