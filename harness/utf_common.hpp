// Typed helpers shared by the transcoding checks.
#ifndef UTF_COMMON_HPP
#define UTF_COMMON_HPP
#include <cstddef>

#include "oracle_utf.hpp"
#include "uri/icubaby.hpp"
#include "vf.hpp"

namespace uc {

using c8 = icubaby::char8;

template <typename T> struct unit;
template <> struct unit<c8> { using type = std::uint8_t; };
template <> struct unit<char16_t> { using type = std::uint16_t; };
template <> struct unit<char32_t> { using type = std::uint32_t; };
template <> struct unit<std::byte> { using type = std::uint8_t; };
template <typename T> using unit_t = typename unit<T>::type;
template <typename T> using units = std::vector<unit_t<T>>;

template <typename T> utf::Decoded decode (units<T> const& s) {
  if constexpr (sizeof (T) == 1) {
    return utf::decode8 (s);
  } else if constexpr (sizeof (T) == 2) {
    return utf::decode16 (s);
  } else {
    return utf::decode32 (s);
  }
}
template <typename T> units<T> encode (std::u32string const& s) {
  if constexpr (sizeof (T) == 1) {
    return utf::encode8 (s);
  } else if constexpr (sizeof (T) == 2) {
    return utf::encode16 (s);
  } else {
    return utf::encode32 (s);
  }
}
template <typename C> std::string show (C const& s) {
  std::string r = "<";
  char b[16];
  for (std::size_t i = 0; i < s.size () && i < 64; ++i) {
    std::snprintf (b, sizeof b, "%s%X", i != 0 ? " " : "", static_cast<unsigned> (s[i]));
    r += b;
  }
  return r + ">";
}
template <typename T> constexpr char const* name () {
  if constexpr (std::is_same_v<T, std::byte>) {
    return "bytes";
  } else {
    return sizeof (T) == 1 ? "8" : sizeof (T) == 2 ? "16" : "32";
  }
}

inline std::uint32_t random_cp (vf::Rng& r) {
  static constexpr std::uint32_t edge[] = {0,      1,      0x2E,   0x41,   0x7F,    0x80,    0xFF,    0x100,   0x7FF,    0x800,
                                           0xFFF,  0x1000, 0x4100, 0xD7FF, 0xE000,  0xFEFF,  0xFFFD,  0xFFFE,  0xFFFF,   0x10000,
                                           0x103FF, 0x10400, 0x1FFFF, 0xFFFFF, 0x100000, 0x10FFFF};
  switch (r.below (5)) {
  case 0: return r.pick (edge);
  case 1: return static_cast<std::uint32_t> (r.below (0x80));
  case 2: return static_cast<std::uint32_t> (r.below (0x800));
  default:
    for (;;) {
      auto const c = static_cast<std::uint32_t> (r.chance (1, 2) ? r.below (0x10000) : r.below (0x110000));
      if (!utf::is_surr (c)) {
        return c;
      }
    }
  }
}
inline std::u32string random_text (vf::Rng& r, vf::u64 maxlen) {
  std::u32string s;
  for (vf::u64 n = r.below (maxlen + 1); n > 0; --n) {
    s += static_cast<char32_t> (random_cp (r));
  }
  return s;
}

inline constexpr std::uint8_t class8[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF,
                                          0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF};
inline constexpr std::uint16_t class16[] = {0,      0x41,   0x7F,   0x80,   0x7FF,  0x800,  0xD7FF, 0xD800,
                                            0xDA12, 0xDBFF, 0xDC00, 0xDE34, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF};
inline constexpr std::uint32_t class32[] = {0,      0x41,   0x7F,   0x80,    0x7FF,   0x800,    0xD7FF,   0xD800,    0xDBFF,
                                            0xDC00, 0xDFFF, 0xE000, 0xFFFD,  0xFFFF,  0x10000,  0x10FFFF, 0x110000,  0x200000,
                                            0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
template <typename T> constexpr auto const& classes () {
  if constexpr (sizeof (T) == 1) {
    return class8;
  } else if constexpr (sizeof (T) == 2) {
    return class16;
  } else {
    return class32;
  }
}
template <typename T> units<T> nth_units (vf::u64 idx, vf::u64 length) {
  units<T> r;
  auto const& cl = classes<T> ();
  for (vf::u64 i = 0; i < length; ++i) {
    r.push_back (static_cast<unit_t<T>> (cl[idx % std::size (cl)]));
    idx /= std::size (cl);
  }
  return r;
}
// mostly well-formed text with damage: units removed, replaced, inserted
template <typename T> units<T> damaged (vf::Rng& r) {
  auto s = encode<T> (random_text (r, 12));
  for (vf::u64 n = r.below (4); n > 0; --n) {
    auto const u = static_cast<unit_t<T>> (r.chance (1, 2) ? r.pick (classes<T> ()) : r.next ());
    switch (r.below (4)) {
    case 0:
      if (!s.empty ()) {
        s.erase (s.begin () + static_cast<std::ptrdiff_t> (r.below (s.size ())));
      }
      break;
    case 1:
      if (!s.empty ()) {
        s[r.below (s.size ())] = u;
      }
      break;
    case 2: s.insert (s.begin () + static_cast<std::ptrdiff_t> (r.below (s.size () + 1)), u); break;
    default: s.resize (r.below (s.size () + 1)); break;
    }
  }
  return s;
}

// A byte stream for the encoding detector.
inline std::vector<std::uint8_t> byte_stream (vf::Rng& r) {
  using bytes = std::vector<std::uint8_t>;
  static bytes const boms[] = {{}, {0xEF, 0xBB, 0xBF}, {0xFE, 0xFF}, {0xFF, 0xFE}, {0, 0, 0xFE, 0xFF}, {0xFF, 0xFE, 0, 0}};
  auto const e = r.below (6);
  bytes b = boms[e];
  switch (e) {
  case 0:
  case 1: {
    auto const s = damaged<c8> (r);
    b.insert (b.end (), s.begin (), s.end ());
    break;
  }
  case 2:
  case 3:
    for (auto const u : damaged<char16_t> (r)) {
      auto const hi = static_cast<std::uint8_t> (u >> 8), lo = static_cast<std::uint8_t> (u);
      b.push_back (e == 2 ? hi : lo);
      b.push_back (e == 2 ? lo : hi);
    }
    break;
  default:
    for (auto const u : damaged<char32_t> (r)) {
      for (int k = 0; k < 4; ++k) {
        b.push_back (static_cast<std::uint8_t> (u >> (e == 4 ? 24 - 8 * k : 8 * k)));
      }
    }
  }
  if (r.chance (1, 4)) {
    b.resize (r.below (b.size () + 1));
  }
  if (r.chance (1, 6)) {
    b.push_back (static_cast<std::uint8_t> (r.next ()));
  }
  if (r.chance (1, 8) && !b.empty ()) {
    b[r.below (std::min<vf::u64> (b.size (), 5))] = static_cast<std::uint8_t> (r.next ());
  }
  return b;
}

// push all units through a transcoder; the result is widened to plain integers
template <typename From, typename To> struct Pushed {
  units<To> out;
  bool partial_before_end = false;
  bool ok_before_end = true;
  bool ok = true;
};
template <typename From, typename To>
Pushed<From, To> push (units<From> const& in) {
  icubaby::transcoder<From, To> t;
  std::vector<To> out;
  auto it = std::back_inserter (out);
  for (auto const u : in) {
    it = t (static_cast<From> (u), it);
  }
  Pushed<From, To> p;
  p.partial_before_end = t.partial ();
  p.ok_before_end = t.well_formed ();
  it = t.end_cp (it);
  p.ok = t.well_formed ();
  for (auto const u : out) {
    p.out.push_back (static_cast<unit_t<To>> (u));
  }
  return p;
}

}  // namespace uc
#endif
