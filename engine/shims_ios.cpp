// The string streams of the C++ library, instantiated here with the pass so
// that the text in them stays symbolic. Locale objects and the formatting of
// numbers stay in the library (their arguments are concrete).
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <iomanip>
#include <sstream>
extern "C" size_t symx_native_fmtd(double v, const char *fmt, char *buf,
                                   size_t n);
namespace std {
template <> template <> ostream &ostream::_M_insert(double V) {
  char Fmt[32] = "%.";
  auto F = flags() & ios_base::floatfield;
  unsigned P = (unsigned)precision();
  size_t N = 2;
  if (P >= 100)
    Fmt[N++] = '0' + P / 100 % 10;
  if (P >= 10)
    Fmt[N++] = '0' + P / 10 % 10;
  Fmt[N++] = '0' + P % 10;
  Fmt[N++] = F == ios_base::fixed        ? 'f'
             : F == ios_base::scientific ? 'e'
                                         : 'g';
  Fmt[N] = 0;
  char B[512];
  size_t L = symx_native_fmtd(V, Fmt, B, sizeof B);
  return write(B, L);
}
template <typename T> static ostream &ins(ostream &O, T V) {
  bool Neg = V < 0;
  unsigned long long U = Neg ? 0 - (unsigned long long)V : V;
  char B[32];
  size_t I = sizeof B;
  do
    B[--I] = '0' + U % 10;
  while (U /= 10);
  if (Neg)
    B[--I] = '-';
  return O.write(B + I, sizeof B - I);
}
template <> template <> ostream &ostream::_M_insert(long V) { return ins(*this, V); }
template <> template <> ostream &ostream::_M_insert(unsigned long V) {
  return ins(*this, V);
}
template <> template <> ostream &ostream::_M_insert(long long V) { return ins(*this, V); }
template <> template <> ostream &ostream::_M_insert(unsigned long long V) {
  return ins(*this, V);
}
template <> template <> ostream &ostream::_M_insert(bool V) { return ins(*this, (long)V); }
template class basic_streambuf<char>;
template class basic_stringbuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template class basic_stringstream<char>;
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, const string &);
template ostream &operator<<(ostream &, string_view);
template ostream &operator<<(ostream &, _Setfill<char>);
template ostream &endl(ostream &);
template ostream &flush(ostream &);
template ostream &__ostream_insert(ostream &, const char *, streamsize);
} // namespace std
