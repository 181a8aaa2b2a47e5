// Stand-in for boost::format in symbolic builds. By default message formatting is not an observable there;
// with SYMX_FORMAT it is a functional model of the conversions Lintel uses on data (%d %u %i %s %x %c %% and %|...| never).
#pragma once
#include <string>
#include <ostream>
#include <type_traits>
#include <exception>
namespace boost {
#if SYMX_FORMAT > 1 // argument counts are checked as boost does: too many when given, too few when the text is asked for
namespace io { struct too_many_args : std::exception {}; struct too_few_args : std::exception {}; }
#define SYMX_TOO_MANY if (pos >= fmt.size()) throw io::too_many_args();
#define SYMX_TOO_FEW if (pos < fmt.size()) throw io::too_few_args();
#else
namespace io { struct too_many_args {}; struct too_few_args {}; }
#define SYMX_TOO_MANY
#define SYMX_TOO_FEW
#endif
template <class Ch> class basic_format {
public:
#ifdef SYMX_FORMAT
  std::basic_string<Ch> fmt, out; size_t pos;
  void lit() { while (pos < fmt.size()) { if (fmt[pos] != '%') { out += fmt[pos++]; continue; } if (pos + 1 < fmt.size() && fmt[pos + 1] == '%') { out += '%'; pos += 2; continue; } return; } }
  basic_format() : pos(0) {} explicit basic_format(const Ch *f) : fmt(f), pos(0) { lit(); } explicit basic_format(const std::basic_string<Ch> &f) : fmt(f), pos(0) { lit(); }
  static std::basic_string<Ch> num(unsigned long long v, bool neg, unsigned base) { Ch b[24]; int i = 24; do { b[--i] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) b[--i] = '-'; return std::basic_string<Ch>(b + i, 24 - i); }
  template <class T> typename std::enable_if<std::is_integral<T>::value && sizeof(T) != 1>::type put(const T &t, Ch c) { bool neg = std::is_signed<T>::value && c != 'x' && t < 0; out += num(neg ? 0ull - (unsigned long long)t : (unsigned long long)(typename std::make_unsigned<T>::type)t, neg, c == 'x' ? 16 : 10); }
  template <class T> typename std::enable_if<std::is_integral<T>::value && sizeof(T) == 1>::type put(const T &t, Ch) { out += (Ch)t; }
  void put(const bool &t, Ch) { out += t ? '1' : '0'; }
  void put(const std::basic_string<Ch> &t, Ch) { out += t; }
  void put(const Ch *t, Ch) { out += t; }
#if SYMX_FORMAT > 1
  template <size_t N> void put(const Ch (&t)[N], Ch) { out += t; }
#endif
  template <class T> typename std::enable_if<!std::is_integral<T>::value>::type put(const T &, Ch) { out += '?'; }
  template <class T> basic_format &operator%(const T &t) { SYMX_TOO_MANY Ch c = 'd'; if (pos < fmt.size()) { pos++; while (pos < fmt.size() && ((fmt[pos] >= '0' && fmt[pos] <= '9') || fmt[pos] == 'l')) pos++; c = fmt[pos++]; } put(t, c); lit(); return *this; }
  std::basic_string<Ch> str() const { SYMX_TOO_FEW return out; }
#else
  basic_format() {} explicit basic_format(const Ch *) {} explicit basic_format(const std::basic_string<Ch> &) {}
  template <class T> basic_format &operator%(const T &) { return *this; }
  std::basic_string<Ch> str() const { return std::basic_string<Ch>("fmt"); }
#endif
  void clear() {} unsigned size() const { return 3; }
};
typedef basic_format<char> format;
template <class Ch> inline std::basic_string<Ch> str(const basic_format<Ch> &f) { return f.str(); }
template <class Ch> inline std::basic_ostream<Ch> &operator<<(std::basic_ostream<Ch> &o, const basic_format<Ch> &) { return o; }
}
