// The table of builtins is generated by asking the Nix library, which is not
// available here. This stand-in has the shape of the real one: builtins visible
// without a prefix, builtins registered under a "__" name, an internal one.
#include "nixf/Sema/PrimOpInfo.h"
namespace nixf {
static PrimOpInfo I(bool Internal = false) {
  PrimOpInfo P{};
  P.Internal = Internal;
  return P;
}
std::map<std::string, PrimOpInfo> PrimOpsInfo = {
    {"abort", I()},  {"baseNameOf", I()}, {"dirOf", I()},
    {"import", I()}, {"map", I()},        {"throw", I()},
    {"toString", I()}, {"__add", I()},    {"__head", I()},
    {"__x", I()},    {"y", I()},          {"z", I(true)},
};
} // namespace nixf
