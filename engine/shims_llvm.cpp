// Instrumented stand-ins for the out-of-line LLVM support functions that read
// program data, so that it stays symbolic. They follow LLVM 18's documented
// behaviour; the plain build used for replay links the real library, and every
// run compares sample paths between the two.
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/ADT/StringMap.h>
#include <llvm/ADT/StringRef.h>
#include <llvm/ADT/Twine.h>
#include <llvm/Support/Error.h>
#include <llvm/Support/FormatVariadic.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/NativeFormatting.h>
#include <llvm/Support/Path.h>
#include <llvm/Support/raw_ostream.h>
#include "symx.h"

extern "C" size_t symx_native_fmtd(double v, const char *fmt, char *buf,
                                   size_t n);

namespace llvm {
// ---- memory -----------------------------------------------------------------
void *allocate_buffer(size_t n, size_t) { return ::operator new(n); }
void deallocate_buffer(void *p, size_t, size_t) { ::operator delete(p); }

template <class Size_T>
void *SmallVectorBase<Size_T>::mallocForGrow(void *FirstEl, size_t MinSize,
                                             size_t TSize, size_t &NewCap) {
  NewCap = capacity() * 2 + 1;
  if (NewCap < MinSize)
    NewCap = MinSize;
  return malloc(NewCap * TSize);
}
template <class Size_T>
void SmallVectorBase<Size_T>::grow_pod(void *FirstEl, size_t MinSize,
                                       size_t TSize) {
  size_t NewCap = capacity() * 2 + 1;
  if (NewCap < MinSize)
    NewCap = MinSize;
  void *N = malloc(NewCap * TSize);
  memcpy(N, BeginX, size() * TSize);
  if (BeginX != FirstEl)
    free(BeginX);
  BeginX = N;
  Capacity = NewCap;
}
template class SmallVectorBase<uint32_t>;
template class SmallVectorBase<uint64_t>;

// ---- StringRef --------------------------------------------------------------
static bool has(StringRef Chars, char C) {
  for (char D : Chars)
    if (C == D)
      return true;
  return false;
}
static char low(char C) { return C >= 'A' && C <= 'Z' ? C + 32 : C; }
int StringRef::compare_insensitive(StringRef R) const {
  size_t n = std::min(size(), R.size());
  for (size_t i = 0; i < n; i++) {
    unsigned char a = low(Data[i]), b = low(R.Data[i]);
    if (a != b)
      return a < b ? -1 : 1;
  }
  return size() == R.size() ? 0 : size() < R.size() ? -1 : 1;
}
bool StringRef::starts_with_insensitive(StringRef P) const {
  return size() >= P.size() &&
         StringRef(Data, P.size()).compare_insensitive(P) == 0;
}
bool StringRef::ends_with_insensitive(StringRef P) const {
  return size() >= P.size() &&
         StringRef(end() - P.size(), P.size()).compare_insensitive(P) == 0;
}
static bool dig(char C) { return C >= '0' && C <= '9'; }
int StringRef::compare_numeric(StringRef RHS) const {
  for (size_t I = 0, E = std::min(Length, RHS.Length); I != E; ++I) {
    if (dig(Data[I]) && dig(RHS.Data[I])) {
      size_t J;
      for (J = I + 1; J != E + 1; ++J) {
        bool ld = J < Length && dig(Data[J]);
        bool rd = J < RHS.Length && dig(RHS.Data[J]);
        if (ld != rd)
          return rd ? -1 : 1;
        if (!rd)
          break;
      }
      if (int Res = memcmp(Data + I, RHS.Data + I, J - I))
        return Res < 0 ? -1 : 1;
      I = J - 1;
      continue;
    }
    if (Data[I] != RHS.Data[I])
      return (unsigned char)Data[I] < (unsigned char)RHS.Data[I] ? -1 : 1;
  }
  if (Length == RHS.Length)
    return 0;
  return Length < RHS.Length ? -1 : 1;
}
size_t StringRef::find(StringRef S, size_t From) const {
  if (From > Length)
    return npos;
  for (size_t i = From; i + S.size() <= Length; i++)
    if (StringRef(Data + i, S.size()) == S)
      return i;
  return npos;
}
size_t StringRef::find_insensitive(char C, size_t From) const {
  for (size_t i = From; i < Length; i++)
    if (low(Data[i]) == low(C))
      return i;
  return npos;
}
size_t StringRef::rfind(StringRef S) const {
  if (S.size() > Length)
    return npos;
  for (size_t i = Length - S.size() + 1; i-- > 0;)
    if (StringRef(Data + i, S.size()) == S)
      return i;
  return npos;
}
size_t StringRef::find_first_of(StringRef Chars, size_t From) const {
  for (size_t i = std::min(From, Length); i < Length; i++)
    if (has(Chars, Data[i]))
      return i;
  return npos;
}
size_t StringRef::find_first_not_of(char C, size_t From) const {
  for (size_t i = std::min(From, Length); i < Length; i++)
    if (Data[i] != C)
      return i;
  return npos;
}
size_t StringRef::find_first_not_of(StringRef Chars, size_t From) const {
  for (size_t i = std::min(From, Length); i < Length; i++)
    if (!has(Chars, Data[i]))
      return i;
  return npos;
}
size_t StringRef::find_last_of(StringRef Chars, size_t From) const {
  for (size_t i = std::min(From, Length); i-- > 0;)
    if (has(Chars, Data[i]))
      return i;
  return npos;
}
size_t StringRef::find_last_not_of(char C, size_t From) const {
  for (size_t i = std::min(From, Length); i-- > 0;)
    if (Data[i] != C)
      return i;
  return npos;
}
size_t StringRef::find_last_not_of(StringRef Chars, size_t From) const {
  for (size_t i = std::min(From, Length); i-- > 0;)
    if (!has(Chars, Data[i]))
      return i;
  return npos;
}
void StringRef::split(SmallVectorImpl<StringRef> &A, StringRef Separator,
                      int MaxSplit, bool KeepEmpty) const {
  StringRef S = *this;
  while (MaxSplit-- != 0) {
    size_t Idx = S.find(Separator);
    if (Idx == npos)
      break;
    if (KeepEmpty || Idx > 0)
      A.push_back(S.slice(0, Idx));
    S = S.slice(Idx + Separator.size(), npos);
  }
  if (KeepEmpty || !S.empty())
    A.push_back(S);
}
void StringRef::split(SmallVectorImpl<StringRef> &A, char Separator,
                      int MaxSplit, bool KeepEmpty) const {
  split(A, StringRef(&Separator, 1), MaxSplit, KeepEmpty);
}
size_t StringRef::count(StringRef S) const {
  size_t c = 0, p = 0;
  if (S.empty())
    return 0;
  while ((p = find(S, p)) != npos)
    ++c, p += S.size();
  return c;
}
static unsigned autoRadix(StringRef &S) {
  if (S.empty())
    return 10;
  if (S.starts_with_insensitive("0x"))
    return S = S.substr(2), 16;
  if (S.starts_with_insensitive("0b"))
    return S = S.substr(2), 2;
  if (S.starts_with("0o"))
    return S = S.substr(2), 8;
  if (S[0] == '0' && S.size() > 1 && dig(S[1]))
    return S = S.substr(1), 8;
  return 10;
}
bool consumeUnsignedInteger(StringRef &S, unsigned Radix,
                            unsigned long long &Result) {
  if (Radix == 0)
    Radix = autoRadix(S);
  if (S.empty())
    return true;
  StringRef S2 = S;
  Result = 0;
  while (!S2.empty()) {
    unsigned C;
    if (dig(S2[0]))
      C = S2[0] - '0';
    else if (S2[0] >= 'a' && S2[0] <= 'z')
      C = S2[0] - 'a' + 10;
    else if (S2[0] >= 'A' && S2[0] <= 'Z')
      C = S2[0] - 'A' + 10;
    else
      break;
    if (C >= Radix)
      break;
    unsigned long long P = Result;
    Result = Result * Radix + C;
    // as Result / Radix < P, without a division of program data
    if (P >= ~0ull / Radix &&
        (P > ~0ull / Radix || C > ~0ull % Radix))
      return true;
    S2 = S2.substr(1);
  }
  if (S.size() == S2.size())
    return true;
  S = S2;
  return false;
}
bool consumeSignedInteger(StringRef &S, unsigned Radix, long long &Result) {
  unsigned long long U;
  if (S.empty() || S.front() != '-') {
    if (consumeUnsignedInteger(S, Radix, U) || (long long)U < 0)
      return true;
    Result = U;
    return false;
  }
  StringRef T = S.drop_front(1);
  if (consumeUnsignedInteger(T, Radix, U) || (long long)(0 - U) > 0)
    return true;
  S = T;
  Result = 0 - U;
  return false;
}
bool getAsUnsignedInteger(StringRef S, unsigned Radix,
                          unsigned long long &Result) {
  if (consumeUnsignedInteger(S, Radix, Result))
    return true;
  return !S.empty();
}
bool getAsSignedInteger(StringRef S, unsigned Radix, long long &Result) {
  if (consumeSignedInteger(S, Radix, Result))
    return true;
  return !S.empty();
}
unsigned DenseMapInfo<StringRef, void>::getHashValue(StringRef) { return 7; }

// ---- StringMap --------------------------------------------------------------
static unsigned *hashes(StringMapEntryBase **T, unsigned N) {
  return reinterpret_cast<unsigned *>(T + N + 1);
}
static StringMapEntryBase **newTable(unsigned N) {
  size_t bytes = (N + 1) * (sizeof(void *) + sizeof(unsigned));
  auto **T = (StringMapEntryBase **)malloc(bytes);
  memset(T, 0, bytes);
  T[N] = (StringMapEntryBase *)2;
  return T;
}
StringMapImpl::StringMapImpl(unsigned InitSize, unsigned itemSize) {
  ItemSize = itemSize;
  if (InitSize)
    init(NextPowerOf2(InitSize * 4 / 3 + 1));
}
void StringMapImpl::init(unsigned N) {
  NumBuckets = N ? N : 16;
  NumItems = NumTombstones = 0;
  TheTable = newTable(NumBuckets);
}
unsigned StringMapImpl::LookupBucketFor(StringRef Name) {
  if (NumBuckets == 0)
    init(16);
  unsigned B = 7 & (NumBuckets - 1), Probe = 1;
  int Tomb = -1;
  while (true) {
    StringMapEntryBase *I = TheTable[B];
    if (!I)
      return Tomb != -1 ? Tomb : B;
    if (I == getTombstoneVal()) {
      if (Tomb == -1)
        Tomb = B;
    } else if (Name == StringRef((char *)I + ItemSize, I->getKeyLength()))
      return B;
    B = (B + Probe++) & (NumBuckets - 1);
  }
}
int StringMapImpl::FindKey(StringRef Key) const {
  if (NumBuckets == 0)
    return -1;
  unsigned B = 7 & (NumBuckets - 1), Probe = 1;
  while (true) {
    StringMapEntryBase *I = TheTable[B];
    if (!I)
      return -1;
    if (I != getTombstoneVal() &&
        Key == StringRef((char *)I + ItemSize, I->getKeyLength()))
      return B;
    B = (B + Probe++) & (NumBuckets - 1);
  }
}
StringMapEntryBase *StringMapImpl::RemoveKey(StringRef Key) {
  int B = FindKey(Key);
  if (B == -1)
    return nullptr;
  StringMapEntryBase *R = TheTable[B];
  TheTable[B] = getTombstoneVal();
  --NumItems;
  ++NumTombstones;
  return R;
}
void StringMapImpl::RemoveKey(StringMapEntryBase *V) {
  RemoveKey(StringRef((char *)V + ItemSize, V->getKeyLength()));
}
unsigned StringMapImpl::RehashTable(unsigned BucketNo) {
  unsigned N;
  if (NumItems * 4 > NumBuckets * 3)
    N = NumBuckets * 2;
  else if (NumBuckets - (NumItems + NumTombstones) <= NumBuckets / 8)
    N = NumBuckets;
  else
    return BucketNo;
  unsigned New = BucketNo;
  StringMapEntryBase **T = newTable(N);
  for (unsigned I = 0; I != NumBuckets; ++I) {
    StringMapEntryBase *E = TheTable[I];
    if (!E || E == getTombstoneVal())
      continue;
    unsigned B = 7 & (N - 1), Probe = 1;
    while (T[B])
      B = (B + Probe++) & (N - 1);
    T[B] = E;
    if (I == BucketNo)
      New = B;
  }
  free(TheTable);
  TheTable = T;
  NumBuckets = N;
  NumTombstones = 0;
  return New;
}

// ---- streams ----------------------------------------------------------------
raw_ostream::~raw_ostream() {
  if (BufferMode == BufferKind::InternalBuffer)
    delete[] OutBufStart;
}
size_t raw_ostream::preferred_buffer_size() const { return 4096; }
void raw_ostream::SetBuffered() { SetBufferSize(4096); }
void raw_ostream::SetBufferAndMode(char *B, size_t Size, BufferKind Mode) {
  if (BufferMode == BufferKind::InternalBuffer)
    delete[] OutBufStart;
  OutBufStart = B;
  OutBufEnd = B + Size;
  OutBufCur = B;
  BufferMode = Mode;
}
void raw_ostream::flush_nonempty() {
  size_t L = OutBufCur - OutBufStart;
  OutBufCur = OutBufStart;
  write_impl(OutBufStart, L);
}
raw_ostream &raw_ostream::write(const char *P, size_t N) {
  if (OutBufCur != OutBufStart)
    flush_nonempty();
  if (N)
    write_impl(P, N);
  return *this;
}
raw_ostream &raw_ostream::write(unsigned char C) {
  char c = C;
  return write(&c, 1);
}
static void writeU(raw_ostream &S, uint64_t N, size_t Min, bool Neg,
                   IntegerStyle St) {
  char b[32];
  size_t n = 0;
  do {
    b[31 - n++] = '0' + N % 10;
    N /= 10;
  } while (N);
  if (Neg)
    S << '-';
  if (St != IntegerStyle::Number)
    for (size_t i = n; i < Min; i++)
      S << '0';
  S.write(b + 32 - n, n);
}
void write_integer(raw_ostream &S, unsigned int N, size_t M, IntegerStyle T) {
  writeU(S, N, M, false, T);
}
void write_integer(raw_ostream &S, int N, size_t M, IntegerStyle T) {
  writeU(S, N < 0 ? 0 - (uint64_t)(int64_t)N : N, M, N < 0, T);
}
void write_integer(raw_ostream &S, unsigned long N, size_t M, IntegerStyle T) {
  writeU(S, N, M, false, T);
}
void write_integer(raw_ostream &S, long N, size_t M, IntegerStyle T) {
  writeU(S, N < 0 ? 0 - (uint64_t)N : N, M, N < 0, T);
}
void write_integer(raw_ostream &S, unsigned long long N, size_t M,
                   IntegerStyle T) {
  writeU(S, N, M, false, T);
}
void write_integer(raw_ostream &S, long long N, size_t M, IntegerStyle T) {
  writeU(S, N < 0 ? 0 - (uint64_t)N : N, M, N < 0, T);
}
void write_hex(raw_ostream &S, uint64_t N, HexPrintStyle St,
               std::optional<size_t> Width) {
  const char *D = St == HexPrintStyle::Upper || St == HexPrintStyle::PrefixUpper
                      ? "0123456789ABCDEF"
                      : "0123456789abcdef";
  char b[32];
  size_t n = 0;
  do {
    b[31 - n++] = D[N & 15];
    N >>= 4;
  } while (N);
  bool P = isPrefixedHexStyle(St);
  if (P)
    S << "0x";
  for (size_t i = n + (P ? 2 : 0); Width && i < *Width; i++)
    S << '0';
  S.write(b + 32 - n, n);
}
bool isPrefixedHexStyle(HexPrintStyle S) {
  return S == HexPrintStyle::PrefixLower || S == HexPrintStyle::PrefixUpper;
}
raw_ostream &raw_ostream::operator<<(unsigned long N) {
  writeU(*this, N, 0, false, IntegerStyle::Integer);
  return *this;
}
raw_ostream &raw_ostream::operator<<(long N) {
  write_integer(*this, N, 0, IntegerStyle::Integer);
  return *this;
}
raw_ostream &raw_ostream::operator<<(unsigned long long N) {
  return *this << (unsigned long)N;
}
raw_ostream &raw_ostream::operator<<(long long N) { return *this << (long)N; }
raw_ostream &raw_ostream::operator<<(double N) {
  char b[64];
  write(b, symx_native_fmtd(N, "%e", b, sizeof b));
  return *this;
}
raw_ostream &raw_ostream::operator<<(const formatv_object_base &F) {
  F.format(*this);
  return *this;
}
raw_ostream &raw_ostream::indent(unsigned N) {
  while (N--)
    *this << ' ';
  return *this;
}
raw_ostream &raw_ostream::changeColor(enum Colors, bool, bool) {
  return *this;
}
raw_ostream &raw_ostream::resetColor() { return *this; }
raw_ostream &raw_ostream::reverseColor() { return *this; }
void raw_ostream::anchor() {}
void raw_pwrite_stream::anchor() {}
void raw_string_ostream::write_impl(const char *P, size_t N) {
  OS.append(P, N);
}
void raw_svector_ostream::write_impl(const char *P, size_t N) {
  OS.append(P, P + N);
}
void raw_svector_ostream::pwrite_impl(const char *P, size_t N, uint64_t Off) {
  memcpy(OS.data() + Off, P, N);
}
uint64_t raw_svector_ostream::current_pos() const { return OS.size(); }
raw_ostream &operator<<(raw_ostream &OS, std::nullopt_t) {
  return OS << "None";
}
raw_ostream &raw_ostream::write_escaped(StringRef S, bool) {
  return *this << S;
}
void printEscapedString(StringRef N, raw_ostream &O) {
  for (unsigned char C : N) {
    if (C == '\\')
      O << '\\' << C;
    else if (C >= 32 && C <= 126 && C != '"')
      O << C;
    else
      O << '\\' << hexdigit(C >> 4) << hexdigit(C & 15);
  }
}
void detail::format_adapter::anchor() {}
std::optional<ReplacementItem>
formatv_object_base::parseReplacementItem(StringRef Spec) {
  StringRef R = Spec.trim("{}");
  R = R.trim();
  size_t Index = 0;
  AlignStyle W = AlignStyle::Right;
  size_t A = 0;
  char Pad = ' ';
  StringRef Opt;
  if (R.consumeInteger(0, Index))
    return ReplacementItem{};
  R = R.trim();
  if (R.consume_front(":"))
    Opt = R.trim(), R = StringRef();
  return ReplacementItem{Spec, Index, A, W, Pad, Opt};
}
SmallVector<ReplacementItem, 2>
formatv_object_base::parseFormatString(StringRef F) {
  SmallVector<ReplacementItem, 2> R;
  while (!F.empty()) {
    if (F.front() != '{') {
      size_t B = F.find_first_of('{');
      R.push_back(ReplacementItem{F.substr(0, B)});
      F = F.substr(B == StringRef::npos ? F.size() : B);
      continue;
    }
    StringRef Braces = F.take_while([](char C) { return C == '{'; });
    if (Braces.size() > 1) {
      size_t N = Braces.size() / 2;
      R.push_back(ReplacementItem{F.substr(0, N)});
      F = F.drop_front(N * 2);
      continue;
    }
    size_t BC = F.find_first_of('}');
    if (BC == StringRef::npos) {
      R.push_back(ReplacementItem{F});
      break;
    }
    if (auto I = parseReplacementItem(F.slice(1, BC)))
      R.push_back(*I);
    F = F.substr(BC + 1);
  }
  return R;
}

// ---- Twine ------------------------------------------------------------------
void Twine::printOneChild(raw_ostream &OS, Child P, NodeKind K) const {
  switch (K) {
  case NullKind:
  case EmptyKind:
    break;
  case TwineKind:
    P.twine->print(OS);
    break;
  case CStringKind:
    OS << P.cString;
    break;
  case StdStringKind:
    OS << *P.stdString;
    break;
  case PtrAndLengthKind:
  case StringLiteralKind:
    OS << StringRef(P.ptrAndLength.ptr, P.ptrAndLength.length);
    break;
  case FormatvObjectKind:
    OS << *P.formatvObject;
    break;
  case CharKind:
    OS << P.character;
    break;
  case DecUIKind:
    OS << P.decUI;
    break;
  case DecIKind:
    OS << P.decI;
    break;
  case DecULKind:
    OS << *P.decUL;
    break;
  case DecLKind:
    OS << *P.decL;
    break;
  case DecULLKind:
    OS << *P.decULL;
    break;
  case DecLLKind:
    OS << *P.decLL;
    break;
  case UHexKind:
    write_hex(OS, *P.uHex, HexPrintStyle::Lower, std::nullopt);
    break;
  }
}
void Twine::print(raw_ostream &OS) const {
  printOneChild(OS, LHS, getLHSKind());
  printOneChild(OS, RHS, getRHSKind());
}
std::string Twine::str() const {
  std::string R;
  raw_string_ostream OS(R);
  print(OS);
  return R;
}
void Twine::toVector(SmallVectorImpl<char> &Out) const {
  raw_svector_ostream OS(Out);
  print(OS);
}
StringRef Twine::toNullTerminatedStringRef(SmallVectorImpl<char> &Out) const {
  toVector(Out);
  Out.push_back(0);
  Out.pop_back();
  return StringRef(Out.data(), Out.size());
}

// ---- errors -----------------------------------------------------------------
char ErrorInfoBase::ID = 0;
char ErrorList::ID = 0;
char ECError::ID = 0;
char StringError::ID = 0;
void ErrorInfoBase::anchor() {}
std::error_code inconvertibleErrorCode() {
  return std::error_code(3, std::generic_category());
}
std::error_code ErrorList::convertToErrorCode() const {
  return inconvertibleErrorCode();
}
StringError::StringError(std::error_code E, const Twine &S)
    : Msg(S.str()), EC(E) {}
StringError::StringError(const Twine &S, std::error_code E)
    : Msg(S.str()), EC(E), PrintMsgOnly(true) {}
void StringError::log(raw_ostream &OS) const {
  // the text of the code itself is left out
  if (!PrintMsgOnly)
    OS << "error ";
  OS << Msg;
}
std::error_code StringError::convertToErrorCode() const { return EC; }
std::string toString(Error E) {
  std::string R;
  raw_string_ostream OS(R);
  bool First = true;
  handleAllErrors(std::move(E), [&](const ErrorInfoBase &EI) {
    if (!First)
      OS << "\n";
    First = false;
    EI.log(OS);
  });
  return R;
}
[[noreturn]] void llvm_unreachable_internal(const char *, const char *,
                                            unsigned) {
  abort();
}
[[noreturn]] void report_bad_alloc_error(const char *, bool) { abort(); }

// ---- paths (POSIX; Windows only as far as the code asks for it) --------------
namespace sys::path {
static bool win(Style S) {
  return S == Style::windows_backslash || S == Style::windows_slash;
}
bool is_separator(char C, Style S) {
  return C == '/' || (win(S) && C == '\\');
}
StringRef get_separator(Style S) {
  return S == Style::windows_backslash ? "\\" : "/";
}
void native(SmallVectorImpl<char> &P, Style S) {
  if (win(S))
    for (char &C : P)
      if (is_separator(C, S))
        C = S == Style::windows_slash ? '/' : '\\';
}
std::string convert_to_slash(StringRef P, Style S) {
  std::string R = P.str();
  if (win(S))
    for (char &C : R)
      if (C == '\\')
        C = '/';
  return R;
}
StringRef root_name(StringRef P, Style S) {
  // "//net" or, on Windows, "C:"
  if (P.size() > 2 && is_separator(P[0], S) && P[0] == P[1] &&
      !is_separator(P[2], S)) {
    size_t E = 2;
    while (E < P.size() && !is_separator(P[E], S))
      E++;
    return P.substr(0, E);
  }
  if (win(S) && !P.empty()) {
    size_t E = 0;
    if (is_separator(P[0], S))
      return StringRef();
    while (E < P.size() && !is_separator(P[E], S))
      E++;
    if (P[E - 1] == ':')
      return P.substr(0, E);
  }
  return StringRef();
}
bool is_absolute(const Twine &T, Style S) {
  SmallString<128> Buf;
  T.toVector(Buf);
  StringRef P(Buf.data(), Buf.size());
  StringRef N = root_name(P, S);
  bool dir = P.size() > N.size() && is_separator(P[N.size()], S);
  return dir && (!win(S) || !N.empty());
}
// position of the last component
static size_t filenamePos(StringRef P) {
  if (!P.empty() && P.back() == '/')
    return P.size() - 1;
  size_t i = P.size();
  while (i > 0 && P[i - 1] != '/')
    i--;
  return (i == 2 && P[0] == '/' && P[1] == '/') ? 0 : i;
}
StringRef filename(StringRef P, Style) {
  if (P.empty())
    return P;
  if (P.back() == '/') {
    size_t i = P.size();
    while (i > 0 && P[i - 1] == '/')
      i--;
    return i == 0 ? StringRef("/") : StringRef(".");
  }
  return P.substr(filenamePos(P));
}
StringRef stem(StringRef P, Style S) {
  StringRef F = filename(P, S);
  if (F == "." || F == "..")
    return F;
  size_t i = F.size();
  while (i > 0 && F[i - 1] != '.')
    i--;
  return i == 0 ? F : F.substr(0, i - 1);
}
StringRef extension(StringRef P, Style S) {
  StringRef F = filename(P, S);
  if (F == "." || F == "..")
    return StringRef();
  size_t i = F.size();
  while (i > 0 && F[i - 1] != '.')
    i--;
  return i == 0 ? StringRef() : F.substr(i - 1);
}
static size_t parentEnd(StringRef P) {
  size_t E = filenamePos(P);
  bool sep = !P.empty() && E < P.size() && P[E] == '/';
  size_t root = !P.empty() && P[0] == '/' ? 0 : StringRef::npos;
  while (E > 0 && (root == StringRef::npos || E > root) && P[E - 1] == '/')
    --E;
  if (E == root && !sep)
    return root + 1;
  return E;
}
StringRef parent_path(StringRef P, Style) { return P.substr(0, parentEnd(P)); }
void remove_filename(SmallVectorImpl<char> &P, Style) {
  size_t E = parentEnd(StringRef(P.data(), P.size()));
  P.truncate(E);
}
void append(SmallVectorImpl<char> &P, const Twine &a, const Twine &b,
            const Twine &c, const Twine &d) {
  const Twine *L[4] = {&a, &b, &c, &d};
  for (const Twine *T : L) {
    SmallString<64> Buf;
    T->toVector(Buf);
    StringRef C(Buf.data(), Buf.size());
    if (C.empty())
      continue;
    bool psep = !P.empty() && P.back() == '/';
    if (psep)
      C = C.drop_while([](char x) { return x == '/'; });
    else if (C[0] != '/' && !P.empty())
      P.push_back('/');
    P.append(C.begin(), C.end());
  }
}
} // namespace sys::path

// ---- JSON -------------------------------------------------------------------
namespace json {
char ParseError::ID = 0;
Value::Value(std::initializer_list<Value> E) : Value(json::Array(E)) {}
Array::Array(std::initializer_list<Value> E) {
  V.reserve(E.size());
  for (const Value &X : E) {
    emplace_back(nullptr);
    back().moveFrom(std::move(X));
  }
}
Value &Object::operator[](const ObjectKey &K) {
  return try_emplace(K, nullptr).first->getSecond();
}
Value &Object::operator[](ObjectKey &&K) {
  return try_emplace(std::move(K), nullptr).first->getSecond();
}
Value *Object::get(StringRef K) {
  auto I = find(K);
  return I == end() ? nullptr : &I->second;
}
const Value *Object::get(StringRef K) const {
  auto I = find(K);
  return I == end() ? nullptr : &I->second;
}
std::optional<std::nullptr_t> Object::getNull(StringRef K) const {
  if (auto *V = get(K))
    return V->getAsNull();
  return std::nullopt;
}
std::optional<bool> Object::getBoolean(StringRef K) const {
  if (auto *V = get(K))
    return V->getAsBoolean();
  return std::nullopt;
}
std::optional<double> Object::getNumber(StringRef K) const {
  if (auto *V = get(K))
    return V->getAsNumber();
  return std::nullopt;
}
std::optional<int64_t> Object::getInteger(StringRef K) const {
  if (auto *V = get(K))
    return V->getAsInteger();
  return std::nullopt;
}
std::optional<StringRef> Object::getString(StringRef K) const {
  if (auto *V = get(K))
    return V->getAsString();
  return std::nullopt;
}
const json::Object *Object::getObject(StringRef K) const {
  if (auto *V = get(K))
    return V->getAsObject();
  return nullptr;
}
json::Object *Object::getObject(StringRef K) {
  if (auto *V = get(K))
    return V->getAsObject();
  return nullptr;
}
const json::Array *Object::getArray(StringRef K) const {
  if (auto *V = get(K))
    return V->getAsArray();
  return nullptr;
}
json::Array *Object::getArray(StringRef K) {
  if (auto *V = get(K))
    return V->getAsArray();
  return nullptr;
}
bool operator==(const Object &L, const Object &R) {
  if (L.size() != R.size())
    return false;
  for (const auto &X : L) {
    auto Y = R.find(X.first);
    if (Y == R.end() || X.second != Y->second)
      return false;
  }
  return true;
}
bool operator==(const Value &L, const Value &R) {
  if (L.kind() != R.kind())
    return false;
  switch (L.kind()) {
  case Value::Null:
    return true;
  case Value::Boolean:
    return *L.getAsBoolean() == *R.getAsBoolean();
  case Value::Number:
    if (L.Type == Value::T_Integer || R.Type == Value::T_Integer)
      return L.getAsInteger() == R.getAsInteger();
    return *L.getAsNumber() == *R.getAsNumber();
  case Value::String:
    return *L.getAsString() == *R.getAsString();
  case Value::Array:
    return *L.getAsArray() == *R.getAsArray();
  case Value::Object:
    return *L.getAsObject() == *R.getAsObject();
  }
  return false;
}
void Value::copyFrom(const Value &M) {
  Type = M.Type;
  switch (Type) {
  case T_Null:
  case T_Boolean:
  case T_Double:
  case T_Integer:
  case T_UINT64:
    memcpy(&Union, &M.Union, 8);
    break;
  case T_StringRef:
    create<StringRef>(M.as<StringRef>());
    break;
  case T_String:
    create<std::string>(M.as<std::string>());
    break;
  case T_Object:
    create<json::Object>(M.as<json::Object>());
    break;
  case T_Array:
    create<json::Array>(M.as<json::Array>());
    break;
  }
}
void Value::moveFrom(const Value &&M) {
  Type = M.Type;
  switch (Type) {
  case T_Null:
  case T_Boolean:
  case T_Double:
  case T_Integer:
  case T_UINT64:
    memcpy(&Union, &M.Union, 8);
    break;
  case T_StringRef:
    create<StringRef>(M.as<StringRef>());
    break;
  case T_String:
    create<std::string>(std::move(M.as<std::string>()));
    M.Type = T_Null;
    break;
  case T_Object:
    create<json::Object>(std::move(M.as<json::Object>()));
    M.Type = T_Null;
    break;
  case T_Array:
    create<json::Array>(std::move(M.as<json::Array>()));
    M.Type = T_Null;
    break;
  }
}
void Value::destroy() {
  switch (Type) {
  case T_Null:
  case T_Boolean:
  case T_Double:
  case T_Integer:
  case T_UINT64:
    break;
  case T_StringRef:
    as<StringRef>().~StringRef();
    break;
  case T_String:
    as<std::string>().~basic_string();
    break;
  case T_Object:
    as<json::Object>().~Object();
    break;
  case T_Array:
    as<json::Array>().~Array();
    break;
  }
}
void Path::report(StringLiteral Msg) {
  const Path *P = this;
  unsigned Count = 0;
  for (; P->Parent; P = P->Parent)
    ++Count;
  Root *R = P->Seg.root();
  R->ErrorMessage = Msg;
  R->ErrorPath.resize(Count);
  auto It = R->ErrorPath.begin();
  for (P = this; P->Parent; P = P->Parent)
    *It++ = P->Seg;
}
Error Path::Root::getError() const {
  return make_error<StringError>(
      Twine(ErrorMessage.empty() ? StringRef("invalid JSON contents")
                                 : StringRef(ErrorMessage)),
      inconvertibleErrorCode());
}
void Path::Root::printErrorContext(const Value &, raw_ostream &OS) const {
  OS << "<context>";
}

// length of the well-formed UTF-8 sequence at I, 0 when it is not one
static size_t seq(StringRef S, size_t I, bool Strict) {
  unsigned char c = S[I];
  auto cont = [&](size_t k, unsigned lo = 0x80, unsigned hi = 0xBF) {
    return I + k < S.size() && (unsigned char)S[I + k] >= lo &&
           (unsigned char)S[I + k] <= hi;
  };
  if (c < 0x80)
    return 1;
  if (c < 0xC2)
    return 0;
  if (c < 0xE0)
    return cont(1) ? 2 : 0;
  if (c < 0xF0)
    return cont(1, c == 0xE0 ? 0xA0 : 0x80, c == 0xED ? 0x9F : 0xBF) && cont(2)
               ? 3
               : 0;
  if (c < 0xF5)
    return cont(1, c == 0xF0 ? 0x90 : 0x80, c == 0xF4 ? 0x8F : 0xBF) &&
                   cont(2) && cont(3)
               ? 4
               : 0;
  return 0;
}
bool isUTF8(StringRef S, size_t *Err) {
  for (size_t I = 0; I < S.size();) {
    size_t n = seq(S, I, true);
    if (!n) {
      if (Err)
        *Err = I;
      return false;
    }
    I += n;
  }
  return true;
}
std::string fixUTF8(StringRef S) {
  std::string R;
  for (size_t I = 0; I < S.size();) {
    size_t n = seq(S, I, true);
    if (n)
      R.append(S.data() + I, n), I += n;
    else
      R += "\xef\xbf\xbd", I++;
  }
  return R;
}

namespace {
void encodeUtf8(uint32_t Rune, std::string &Out) {
  if (Rune < 0x80) {
    Out.push_back(Rune & 0x7F);
  } else if (Rune < 0x800) {
    Out.push_back(0xC0 | ((Rune & 0x7C0) >> 6));
    Out.push_back(0x80 | (Rune & 0x3F));
  } else if (Rune < 0x10000) {
    Out.push_back(0xE0 | ((Rune & 0xF000) >> 12));
    Out.push_back(0x80 | ((Rune & 0xFC0) >> 6));
    Out.push_back(0x80 | (Rune & 0x3F));
  } else {
    Out.push_back(0xF0 | ((Rune & 0x1F0000) >> 18));
    Out.push_back(0x80 | ((Rune & 0x3F000) >> 12));
    Out.push_back(0x80 | ((Rune & 0xFC0) >> 6));
    Out.push_back(0x80 | (Rune & 0x3F));
  }
}
struct Parser {
  const char *Start, *P, *End;
  const char *ErrMsg = nullptr;
  const char *ErrAt = nullptr;
  bool fail(const char *M) {
    ErrMsg = M;
    ErrAt = P;
    return false;
  }
  bool isWs(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
  void ws() {
    while (P != End && isWs(*P))
      ++P;
  }
  char peek() { return P == End ? 0 : *P; }
  char next() { return P == End ? 0 : *P++; }
  bool lit(const char *R, Value &Out, Value V, const char *Err) {
    for (; *R; R++)
      if (next() != *R)
        return fail(Err);
    Out = std::move(V);
    return true;
  }
  bool value(Value &Out) {
    ws();
    if (P == End)
      return fail("Unexpected EOF");
    char C = next();
    switch (C) {
    case 'n':
      return lit("ull", Out, nullptr, "Invalid JSON value (null?)");
    case 't':
      return lit("rue", Out, true, "Invalid JSON value (true?)");
    case 'f':
      return lit("alse", Out, false, "Invalid JSON value (false?)");
    case '"': {
      std::string S;
      if (!string(S))
        return false;
      Out = std::move(S);
      return true;
    }
    case '[': {
      Out = Array{};
      Array &A = *Out.getAsArray();
      ws();
      if (peek() == ']') {
        ++P;
        return true;
      }
      for (;;) {
        A.emplace_back(nullptr);
        if (!value(A.back()))
          return false;
        ws();
        switch (next()) {
        case ',':
          ws();
          continue;
        case ']':
          return true;
        default:
          return fail("Expected , or ] after array element");
        }
      }
    }
    case '{': {
      Out = Object{};
      Object &O = *Out.getAsObject();
      ws();
      if (peek() == '}') {
        ++P;
        return true;
      }
      for (;;) {
        if (next() != '"')
          return fail("Expected object key");
        std::string K;
        if (!string(K))
          return false;
        ws();
        if (next() != ':')
          return fail("Expected : after object key");
        ws();
        if (!value(O[std::move(K)]))
          return false;
        ws();
        switch (next()) {
        case ',':
          ws();
          continue;
        case '}':
          return true;
        default:
          return fail("Expected , or } after object property");
        }
      }
    }
    default:
      if (isNum(C))
        return number(C, Out);
      return fail("Invalid JSON value");
    }
  }
  bool isNum(char c) {
    return dig(c) || c == 'e' || c == 'E' || c == '+' || c == '-' || c == '.';
  }
  bool number(char First, Value &Out) {
    SmallString<24> S;
    S.push_back(First);
    while (P != End && isNum(*P))
      S.push_back(next());
    S.push_back(0);
    S.pop_back();
    char *E;
    errno = 0;
    int64_t I = std::strtoll(S.data(), &E, 10);
    if (E == S.data() + S.size() && errno != ERANGE) {
      Out = int64_t(I);
      return true;
    }
    if (First != '-') {
      errno = 0;
      uint64_t U = std::strtoull(S.data(), &E, 10);
      if (E == S.data() + S.size() && errno != ERANGE) {
        Out = U;
        return true;
      }
    }
    double D = std::strtod(S.data(), &E);
    Out = D;
    return E == S.data() + S.size() || fail("Invalid JSON value (number?)");
  }
  bool string(std::string &Out) {
    char C;
    for (C = next(); C != '"'; C = next()) {
      if (P == End)
        return fail("Unterminated string");
      if ((C & 0x1f) == C)
        return fail("Control character in string");
      if (C != '\\') {
        Out.push_back(C);
        continue;
      }
      switch (C = next()) {
      case '"':
      case '\\':
      case '/':
        Out.push_back(C);
        break;
      case 'b':
        Out.push_back('\b');
        break;
      case 'f':
        Out.push_back('\f');
        break;
      case 'n':
        Out.push_back('\n');
        break;
      case 'r':
        Out.push_back('\r');
        break;
      case 't':
        Out.push_back('\t');
        break;
      case 'u':
        if (!unicode(Out))
          return false;
        break;
      default:
        return fail("Invalid escape sequence");
      }
    }
    return true;
  }
  bool hex4(uint16_t &Out) {
    Out = 0;
    char B[4] = {next(), next(), next(), next()};
    for (unsigned char C : B) {
      if (!isHexDigit(C))
        return fail("Invalid \\u escape sequence");
      Out <<= 4;
      Out |= C > '9' ? (C & ~0x20) - 'A' + 10 : C - '0';
    }
    return true;
  }
  bool unicode(std::string &Out) {
    uint16_t First;
    if (!hex4(First))
      return false;
    while (true) {
      if (First < 0xD800 || First >= 0xE000) {
        encodeUtf8(First, Out);
        return true;
      }
      if (First >= 0xDC00) {
        Out += "\xef\xbf\xbd";
        return true;
      }
      if (End - P < 2 || P[0] != '\\' || P[1] != 'u') {
        Out += "\xef\xbf\xbd";
        return true;
      }
      P += 2;
      uint16_t Second;
      if (!hex4(Second))
        return false;
      if (Second < 0xDC00 || Second >= 0xE000) {
        Out += "\xef\xbf\xbd";
        First = Second;
        continue;
      }
      encodeUtf8(0x10000 | ((First - 0xD800) << 10) | (Second - 0xDC00), Out);
      return true;
    }
  }
};
} // namespace
Expected<Value> parse(StringRef J) {
  Parser P{J.begin(), J.begin(), J.end()};
  Value E = nullptr;
  size_t Off;
  if (!isUTF8(J, &Off))
    return make_error<ParseError>("Invalid UTF-8 sequence", 0, 0, Off);
  if (P.value(E)) {
    P.ws();
    if (P.P == P.End)
      return std::move(E);
    P.fail("Text after end of document");
  }
  return make_error<ParseError>(P.ErrMsg, 0, 0, P.ErrAt - P.Start);
}

static void quote(raw_ostream &OS, StringRef S) {
  OS << '"';
  for (unsigned char C : S) {
    if (C == 0x22 || C == 0x5C)
      OS << '\\';
    if (C >= 0x20) {
      OS << C;
      continue;
    }
    OS << '\\';
    switch (C) {
    case '\t':
      OS << 't';
      break;
    case '\n':
      OS << 'n';
      break;
    case '\r':
      OS << 'r';
      break;
    default:
      OS << 'u';
      OS << '0' << '0' << hexdigit(C >> 4, true) << hexdigit(C & 15, true);
      break;
    }
  }
  OS << '"';
}
void OStream::valueBegin() {
  if (Stack.back().Ctx != Singleton) {
    if (Stack.back().HasValue)
      OS << ',';
  }
  if (Stack.back().Ctx == Array)
    newline();
  flushComment();
  Stack.back().HasValue = true;
}
void OStream::flushComment() {}
void OStream::newline() {
  if (IndentSize) {
    OS.write('\n');
    OS.indent(Indent);
  }
}
void OStream::arrayBegin() {
  valueBegin();
  Stack.emplace_back();
  Stack.back().Ctx = Array;
  Indent += IndentSize;
  OS << '[';
}
void OStream::arrayEnd() {
  Indent -= IndentSize;
  if (Stack.back().HasValue)
    newline();
  OS << ']';
  Stack.pop_back();
}
void OStream::objectBegin() {
  valueBegin();
  Stack.emplace_back();
  Stack.back().Ctx = Object;
  Indent += IndentSize;
  OS << '{';
}
void OStream::objectEnd() {
  Indent -= IndentSize;
  if (Stack.back().HasValue)
    newline();
  OS << '}';
  Stack.pop_back();
}
void OStream::attributeBegin(StringRef Key) {
  if (Stack.back().HasValue)
    OS << ',';
  newline();
  Stack.back().HasValue = true;
  Stack.emplace_back();
  Stack.back().Ctx = Singleton;
  quote(OS, isUTF8(Key) ? std::string(Key) : fixUTF8(Key));
  OS.write(':');
  if (IndentSize)
    OS.write(' ');
}
void OStream::attributeEnd() { Stack.pop_back(); }
raw_ostream &OStream::rawValueBegin() {
  valueBegin();
  Stack.emplace_back();
  Stack.back().Ctx = RawValue;
  return OS;
}
void OStream::rawValueEnd() { Stack.pop_back(); }
void OStream::value(const Value &V) {
  switch (V.kind()) {
  case Value::Null:
    valueBegin();
    OS << "null";
    return;
  case Value::Boolean:
    valueBegin();
    OS << (*V.getAsBoolean() ? "true" : "false");
    return;
  case Value::Number:
    valueBegin();
    if (V.Type == Value::T_Integer)
      OS << *V.getAsInteger();
    else if (V.Type == Value::T_UINT64)
      OS << *V.getAsUINT64();
    else {
      char b[64];
      OS.write(b, symx_native_fmtd(*V.getAsNumber(), "%.17g", b, sizeof b));
    }
    return;
  case Value::String:
    valueBegin();
    quote(OS, *V.getAsString());
    return;
  case Value::Array:
    return array([&] {
      for (const Value &E : *V.getAsArray())
        value(E);
    });
  case Value::Object:
    return object([&] {
      SmallVector<const json::Object::value_type *, 8> L;
      for (const auto &E : *V.getAsObject()) {
        L.push_back(&E);
        for (size_t i = L.size() - 1; i > 0 && L[i]->first < L[i - 1]->first;
             i--)
          std::swap(L[i], L[i - 1]);
      }
      for (auto *E : L)
        attribute(E->first, E->second);
    });
  }
}
} // namespace json
void format_provider<json::Value>::format(const json::Value &E, raw_ostream &OS,
                                          StringRef Opt) {
  unsigned Indent = 0;
  if (!Opt.empty() && Opt.getAsInteger(10, Indent))
    llvm_unreachable("json::Value format options should be an integer");
  json::OStream(OS, Indent).value(E);
}
} // namespace llvm
