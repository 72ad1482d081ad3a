// Independent UTF codecs, written from Unicode Table 3-7 and the "maximal subpart" practice.
#ifndef ORACLE_UTF_HPP
#define ORACLE_UTF_HPP
#include <cstdint>
#include <string>
#include <vector>

namespace utf {

struct Decoded {
  std::u32string cps;
  bool ok = true;
  bool partial = false;  // the input ends inside a sequence that could still have been completed
};

inline bool is_surr (std::uint32_t c) { return c >= 0xD800 && c <= 0xDFFF; }

inline Decoded decode8 (std::vector<std::uint8_t> const& s) {
  Decoded d;
  std::size_t i = 0;
  auto const n = s.size ();
  while (i < n) {
    unsigned const b = s[i];
    if (b < 0x80) {
      d.cps += static_cast<char32_t> (b);
      ++i;
      continue;
    }
    unsigned need = 0, lo = 0x80, hi = 0xBF;
    std::uint32_t cp = 0;
    if (b >= 0xC2 && b <= 0xDF) {
      need = 1;
      cp = b & 0x1F;
    } else if (b >= 0xE0 && b <= 0xEF) {
      need = 2;
      cp = b & 0x0F;
      if (b == 0xE0) {
        lo = 0xA0;
      }
      if (b == 0xED) {
        hi = 0x9F;
      }
    } else if (b >= 0xF0 && b <= 0xF4) {
      need = 3;
      cp = b & 0x07;
      if (b == 0xF0) {
        lo = 0x90;
      }
      if (b == 0xF4) {
        hi = 0x8F;
      }
    }
    if (need == 0) {
      d.cps += char32_t{0xFFFD};
      d.ok = false;
      ++i;
      continue;
    }
    ++i;
    bool bad = false;
    while (need > 0) {
      if (i >= n) {
        d.partial = true;
        bad = true;
        break;
      }
      if (s[i] < lo || s[i] > hi) {
        bad = true;
        break;
      }
      cp = (cp << 6) | (s[i] & 0x3FU);
      lo = 0x80;
      hi = 0xBF;
      ++i;
      --need;
    }
    if (bad) {
      d.cps += char32_t{0xFFFD};
      d.ok = false;
    } else {
      d.cps += static_cast<char32_t> (cp);
    }
  }
  return d;
}

inline Decoded decode16 (std::vector<std::uint16_t> const& s) {
  Decoded d;
  for (std::size_t i = 0; i < s.size (); ++i) {
    unsigned const u = s[i];
    if (!is_surr (u)) {
      d.cps += static_cast<char32_t> (u);
    } else if (u < 0xDC00 && i + 1 < s.size () && s[i + 1] >= 0xDC00 && s[i + 1] <= 0xDFFF) {
      d.cps += static_cast<char32_t> (0x10000 + ((u - 0xD800) * 0x400U) + (s[i + 1] - 0xDC00U));
      ++i;
    } else {
      d.partial = d.partial || (u < 0xDC00 && i + 1 == s.size ());
      d.cps += char32_t{0xFFFD};
      d.ok = false;
    }
  }
  return d;
}

inline Decoded decode32 (std::vector<std::uint32_t> const& s) {
  Decoded d;
  for (auto const u : s) {
    if (u > 0x10FFFF || is_surr (u)) {
      d.cps += char32_t{0xFFFD};
      d.ok = false;
    } else {
      d.cps += static_cast<char32_t> (u);
    }
  }
  return d;
}

inline std::vector<std::uint8_t> encode8 (std::u32string const& s) {
  std::vector<std::uint8_t> r;
  auto put = [&r] (std::uint32_t v) { r.push_back (static_cast<std::uint8_t> (v)); };
  for (std::uint32_t const c : s) {
    if (c < 0x80) {
      put (c);
    } else if (c < 0x800) {
      put (0xC0 + c / 64);
      put (0x80 + c % 64);
    } else if (c < 0x10000) {
      put (0xE0 + c / 4096);
      put (0x80 + c / 64 % 64);
      put (0x80 + c % 64);
    } else {
      put (0xF0 + c / 262144);
      put (0x80 + c / 4096 % 64);
      put (0x80 + c / 64 % 64);
      put (0x80 + c % 64);
    }
  }
  return r;
}
inline std::vector<std::uint16_t> encode16 (std::u32string const& s) {
  std::vector<std::uint16_t> r;
  for (std::uint32_t const c : s) {
    if (c < 0x10000) {
      r.push_back (static_cast<std::uint16_t> (c));
    } else {
      r.push_back (static_cast<std::uint16_t> (0xD800 + (c - 0x10000) / 0x400));
      r.push_back (static_cast<std::uint16_t> (0xDC00 + (c - 0x10000) % 0x400));
    }
  }
  return r;
}
inline std::vector<std::uint32_t> encode32 (std::u32string const& s) { return {s.begin (), s.end ()}; }

inline std::string str8 (std::u32string const& s) {
  auto const v = encode8 (s);
  return {v.begin (), v.end ()};
}

}  // namespace utf
#endif
