// Stand-in for utfcpp (not available offline): strict UTF-8 <-> UTF-16.
#pragma once
#include <stdexcept>
#include <string>
#include <string_view>
namespace utf8 {
struct exception : std::runtime_error { using std::runtime_error::runtime_error; };
inline std::string utf16to8(std::u16string_view s) {
  std::string r;
  for (std::size_t i = 0; i < s.size(); ++i) {
    char32_t c = s[i];
    if (c >= 0xD800 && c < 0xDC00) {
      if (i + 1 >= s.size() || s[i + 1] < 0xDC00 || s[i + 1] > 0xDFFF) throw exception("Invalid UTF-16");
      c = 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00);
    } else if (c >= 0xDC00 && c <= 0xDFFF) throw exception("Invalid UTF-16");
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  }
  return r;
}
inline std::u16string utf8to16(std::string_view s) {
  std::u16string r;
  for (std::size_t i = 0; i < s.size();) {
    unsigned char b = (unsigned char)s[i];
    int n = b < 0x80 ? 0 : b >= 0xC2 && b < 0xE0 ? 1 : b >= 0xE0 && b < 0xF0 ? 2 : b >= 0xF0 && b < 0xF5 ? 3 : -1;
    if (n < 0 || i + n >= s.size()) throw exception("Invalid UTF-8");
    char32_t c = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
    for (int k = 1; k <= n; ++k) {
      unsigned char x = (unsigned char)s[i + k];
      if ((x & 0xC0) != 0x80) throw exception("Invalid UTF-8");
      c = c << 6 | (x & 63);
    }
    if ((n == 2 && (c < 0x800 || (c >= 0xD800 && c < 0xE000))) || (n == 3 && (c < 0x10000 || c > 0x10FFFF))) throw exception("Invalid UTF-8");
    i += n + 1;
    if (c < 0x10000) r += (char16_t)c;
    else { c -= 0x10000; r += (char16_t)(0xD800 + (c >> 10)); r += (char16_t)(0xDC00 + (c & 1023)); }
  }
  return r;
}
}  // namespace utf8
