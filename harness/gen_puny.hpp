// Code point sequences and punycode-like text.
#ifndef GEN_PUNY_HPP
#define GEN_PUNY_HPP
#include "gen_uri.hpp"
#include "oracle_puny.hpp"

namespace gpu {
using vf::Rng;
using vf::u64;

inline char32_t scalar (Rng& r, bool surrogates) {
  static constexpr char32_t edge[] = {0x80, 0x81, 0xA0, 0xDF, 0xE9, 0xFC, 0xFF, 0x100, 0x3B1, 0x430, 0x7FF, 0x800, 0x3042, 0x4E00,
                                      0x4E01, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0xFFFFF, 0x10FFFE, 0x10FFFF};
  for (;;) {
    char32_t c;
    switch (r.below (6)) {
    case 0:
    case 1: c = r.pick (edge); break;
    case 2: c = static_cast<char32_t> (0x80 + r.below (0x80)); break;
    case 3: c = static_cast<char32_t> (0x4E00 + r.below (0x40)); break;
    case 4: c = static_cast<char32_t> (r.below (0x10000)); break;
    default: c = static_cast<char32_t> (r.below (0x110000)); break;
    }
    if (surrogates || !utf::is_surr (c)) {
      return c;
    }
  }
}
inline std::u32string text (Rng& r, u64 maxlen, bool surrogates, std::string_view ascii = "abcXYZ019-- ~_") {
  std::u32string s;
  auto const ratio = r.below (5);
  char32_t last = 0x80;
  for (u64 n = r.below (maxlen + 1); n > 0; --n) {
    if (r.below (4) < ratio) {
      s += static_cast<char32_t> (static_cast<unsigned char> (r.pick_char (ascii)));
    } else if (r.chance (1, 3)) {
      s += last;  // repeats and neighbours
      if (last < 0x10FFFF && !utf::is_surr (last + 1) && r.chance (1, 2)) {
        ++last;
      }
    } else {
      s += last = scalar (r, surrogates);
    }
  }
  return s;
}
// text that may or may not decode
// One generalized variable-length integer, of any size.
inline std::string integer (puny::big v, unsigned long bias) {
  static constexpr char digits[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  std::string s;
  for (unsigned long k = 36;; k += 36) {
    auto const t = puny::threshold (k, bias);
    if (v < t) {
      s += digits[static_cast<unsigned> (v)];
      return s;
    }
    s += digits[t + static_cast<unsigned> ((v - t) % (36 - t))];
    v = (v - t) / (36 - t);
  }
}
// Text whose first integer, or the second, is just about a power of two.
inline std::string near_limit (Rng& r) {
  static constexpr unsigned powers[] = {15, 16, 20, 21, 24, 31, 32, 33, 40, 48, 53, 62, 63, 64, 65, 66, 72};
  auto const plain = r.below (4);
  std::string s;
  for (u64 i = 0; i < plain; ++i) {
    s += r.pick_char ("abz09");
  }
  if (plain > 0) {
    s += '-';
  }
  puny::big base = puny::big{1} << r.pick (powers);
  base *= 1 + r.below (3);
  auto const len = plain + 1;
  auto aim = [&r] (puny::big b, u64 n) {
    // an offset that a wrapped value would turn into some code point
    auto const d = r.chance (1, 3) ? r.below (8) : r.below (n * 0x110000);
    return r.chance (1, 4) && b > d ? b - d : b + d;
  };
  if (r.chance (2, 3)) {
    s += integer (aim (base, len), 72);
  } else {
    auto const first = r.below (len * 0x500);
    s += integer (first, 72);
    s += integer (aim (base, len + 1), puny::adapt (first, len, true));
  }
  if (r.chance (1, 4)) {
    s += r.pick_char ("a09");
  }
  return s;
}
inline std::string coded (Rng& r) {
  static constexpr std::string_view digits = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  std::string s;
  switch (r.below (7)) {
  case 6: s = near_limit (r); break;
  case 0:
    s = puny::encode (text (r, 8, true), r.chance (1, 2)).text;
    break;
  case 1: {
    s = puny::encode (text (r, 8, true), false).text;
    for (u64 n = 1 + r.below (2); n > 0 && !s.empty (); --n) {
      switch (r.below (4)) {
      case 0: s[r.below (s.size ())] = r.pick_char (digits); break;
      case 1: s[r.below (s.size ())] = static_cast<char> (r.below (256)); break;
      case 2: s.resize (r.below (s.size ())); break;
      default: s.insert (r.below (s.size () + 1), 1, r.pick_char ("-9az"));
      }
    }
    break;
  }
  case 2:
    for (u64 n = r.below (16); n > 0; --n) {
      s += r.pick_char (digits);
    }
    break;
  case 3:  // long runs of large digits
    s.assign (r.below (24), r.chance (1, 2) ? '9' : 'z');
    for (u64 n = r.below (4); n > 0; --n) {
      s.insert (r.below (s.size () + 1), 1, r.pick_char (digits));
    }
    break;
  case 4:
    s = gen::word (r, 0, "--") + "-";
    for (u64 n = r.below (8); n > 0; --n) {
      s += r.pick_char (digits);
    }
    break;
  default: s = gen::bytes (r, r.below (8));
  }
  if (r.chance (1, 8)) {
    for (auto& c : s) {
      if (c >= 'a' && c <= 'z' && r.chance (1, 2)) {
        c = static_cast<char> (c - 32);
      }
    }
  }
  return s;
}
}  // namespace gpu
#endif
