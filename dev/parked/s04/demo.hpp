#include <SeQuant/core/context.hpp>
#include <SeQuant/core/expr.hpp>
#include <SeQuant/core/op.hpp>
#include <SeQuant/core/io/shorthands.hpp>
#include <SeQuant/domain/mbpt/convention.hpp>
#include <cstdio>
#include <string>
#include <SeQuant/core/tensor_canonicalizer.hpp>
#include <clocale>
static int canon_registered = (sequant::TensorCanonicalizer::register_instance(std::make_shared<sequant::DefaultTensorCanonicalizer>()), 0);
namespace sequant { std::string toUtf8(std::wstring_view w) { std::string s; for (wchar_t c : w) { if (c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xC0 | c >> 6); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xE0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); } } return s; }
std::wstring toUtf16(std::string_view s) { std::wstring w; for (size_t k = 0; k < s.size();) { unsigned char c = s[k]; int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : 3; wchar_t v = n == 1 ? c : n == 2 ? c & 31 : c & 15; for (int q = 1; q < n; ++q) v = v << 6 | (s[k + q] & 63); w += v; k += n; } return w; } }
