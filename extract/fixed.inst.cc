// one function per way to write into storage of a fixed size
#include "kanon/string/lexical_stream.h"
#include "kanon/string/fmt_stream.h"

namespace verifw {
using namespace kanon;
template <unsigned SZ>
using FB = kanon::detail::FixedBuffer<SZ>;

#define SIZED(SZ)                                                                \
  void fb_##SZ##_new() { FB<SZ> b; (void)b; }                                    \
  void fb_##SZ##_Append(FB<SZ> &b, char const *s, unsigned n) { b.Append(s, n); } \
  void fb_##SZ##_AppendView(FB<SZ> &b, StringView s) { b.Append(s); }            \
  void fb_##SZ##_AdvanceRead(FB<SZ> &b, unsigned n) { b.AdvanceRead(n); }        \
  void fb_##SZ##_reset(FB<SZ> &b) { b.reset(); }                                 \
  void fb_##SZ##_zero(FB<SZ> &b) { b.zero(); }                                   \
  void fb_##SZ##_swap(FB<SZ> &b, FB<SZ> &c) { b.swap(c); }                       \
  void fb_##SZ##_bool(FB<SZ> &b, bool v) { b.appendBool(v); }                    \
  void fb_##SZ##_char(FB<SZ> &b, char v) { b.appendChar(v); }                    \
  void fb_##SZ##_double(FB<SZ> &b, double v) { b.appendFloat(v); }               \
  void fb_##SZ##_ptr(FB<SZ> &b, void const *v) { b.appendPtr(v); }               \
  void fb_##SZ##_i16(FB<SZ> &b, short v) { b.appendInt(v); }                     \
  void fb_##SZ##_u16(FB<SZ> &b, unsigned short v) { b.appendInt(v); }            \
  void fb_##SZ##_u8(FB<SZ> &b, unsigned char v) { b.appendInt(v); }              \
  void fb_##SZ##_i32(FB<SZ> &b, int v) { b.appendInt(v); }                       \
  void fb_##SZ##_u32(FB<SZ> &b, unsigned v) { b.appendInt(v); }                  \
  void fb_##SZ##_i64(FB<SZ> &b, long v) { b.appendInt(v); }                      \
  void fb_##SZ##_u64(FB<SZ> &b, unsigned long v) { b.appendInt(v); }             \
  void fb_##SZ##_ill(FB<SZ> &b, long long v) { b.appendInt(v); }                 \
  void fb_##SZ##_ull(FB<SZ> &b, unsigned long long v) { b.appendInt(v); }

SIZED(1)
SIZED(4)
SIZED(16)
SIZED(40)
SIZED(330)
SIZED(4096)
SIZED(4194304)

void ls_bool(LexicalStream<64> &s, bool v) { s << v; }
void ls_char(LexicalStream<64> &s, char v) { s << v; }
void ls_short(LexicalStream<64> &s, short v) { s << v; }
void ls_ushort(LexicalStream<64> &s, unsigned short v) { s << v; }
void ls_int(LexicalStream<64> &s, int v) { s << v; }
void ls_unsigned(LexicalStream<64> &s, unsigned v) { s << v; }
void ls_long(LexicalStream<64> &s, long v) { s << v; }
void ls_ulong(LexicalStream<64> &s, unsigned long v) { s << v; }
void ls_llong(LexicalStream<64> &s, long long v) { s << v; }
void ls_ullong(LexicalStream<64> &s, unsigned long long v) { s << v; }
void ls_uchar(LexicalStream<64> &s, unsigned char v) { s << v; }
void ls_float(LexicalStream<64> &s, float v) { s << v; }
void ls_double(LexicalStream<64> &s, double v) { s << v; }
void ls_cstr(LexicalStream<64> &s, char const *v) { s << v; }
void ls_string(LexicalStream<64> &s, std::string const &v) { s << v; }
void ls_view(LexicalStream<64> &s, StringView v) { s << v; }
void ls_ptr(LexicalStream<64> &s, void const *v) { s << v; }
void ls_fmt(LexicalStream<64> &s, FmtStream<32> const &v) { s << v; }
void ls_raw(LexicalStream<64> &s, char const *p, unsigned n) { s.Append(p, n); }
} // namespace verifw

#include "kanon/string/lexical_cast.h"
namespace verifw {
void fn_fmt(double v) { Fmt f("%f", v); (void)f; }
void fn_fmt_int(long v) { Fmt f("%ld", v); (void)f; }
void fn_cast_int(StringView s) { (void)lexical_cast<int>(s); }
void fn_cast_long(std::string const &s) { (void)lexical_cast<long>(s); }
void fn_cast_ull(StringView s) { (void)lexical_cast<unsigned long long>(s); }
} // namespace verifw
