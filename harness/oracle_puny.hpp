// RFC 3492 transcribed from sections 6.1-6.3 with 128-bit arithmetic, plus the label rules
// for hosts. Shares nothing with the library.
#ifndef ORACLE_PUNY_HPP
#define ORACLE_PUNY_HPP
#include <optional>
#include <string>
#include <string_view>

#include "oracle_utf.hpp"

namespace puny {
using sv = std::string_view;
using big = unsigned __int128;

inline unsigned threshold (unsigned long k, unsigned long bias) {
  // k <= bias + tmin ? tmin : k >= bias + tmax ? tmax : k - bias
  if (k <= bias + 1) {
    return 1;
  }
  if (k >= bias + 26) {
    return 26;
  }
  return static_cast<unsigned> (k - bias);
}
inline unsigned long adapt (big delta, big numpoints, bool first) {
  delta = first ? delta / 700 : delta / 2;
  delta += delta / numpoints;
  unsigned long k = 0;
  while (delta > ((36 - 1) * 26) / 2) {
    delta /= 35;
    k += 36;
  }
  return k + static_cast<unsigned long> (36 * delta / (delta + 38));
}

struct Encoded {
  std::string text;
  bool non_ascii = false;
};
inline Encoded encode (std::u32string const& in, bool allow_plain) {
  static constexpr char digits[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  Encoded r;
  big b = 0;
  for (char32_t const c : in) {
    if (c < 0x80) {
      r.text += static_cast<char> (c);
      ++b;
    } else {
      r.non_ascii = true;
    }
  }
  if (!r.non_ascii && allow_plain) {
    return r;
  }
  if (b > 0) {
    r.text += '-';
  }
  big h = b, delta = 0;
  char32_t n = 0x80;
  unsigned long bias = 72;
  while (h < in.size ()) {
    char32_t m = 0xFFFFFFFF;
    for (char32_t const c : in) {
      if (c >= n && c < m) {
        m = c;
      }
    }
    delta += big{m - n} * (h + 1);
    n = m;
    for (char32_t const c : in) {
      if (c < n) {
        ++delta;
      }
      if (c == n) {
        big q = delta;
        for (unsigned long k = 36;; k += 36) {
          auto const t = threshold (k, bias);
          if (q < t) {
            break;
          }
          r.text += digits[static_cast<unsigned> (t + (q - t) % (36 - t))];
          q = (q - t) / (36 - t);
        }
        r.text += digits[static_cast<unsigned> (q)];
        bias = adapt (delta, h + 1, h == b);
        delta = 0;
        ++h;
      }
    }
    ++delta;
    ++n;
  }
  return r;
}

enum class Verdict {
  ok,          // exactly `text`
  bad_input,   // this error
  overflow,    // this error
  error,       // some error: which one depends on where an implementation notices the overflow
  ok_or_error  // `text` or an error: holds values above 0x10FFFF that fit 32 bits
};
struct Decoded {
  Verdict v = Verdict::ok;
  std::u32string text;
  bool beyond_unicode = false;
};

// `skip_lone_delimiter`: treat a delimiter with nothing before it as if it was not there
inline Decoded decode (sv in, bool skip_lone_delimiter) {
  Decoded r;
  auto const d = in.rfind ('-');
  if (d != sv::npos && (d > 0 || skip_lone_delimiter)) {
    for (char const c : in.substr (0, d)) {
      if (static_cast<unsigned char> (c) >= 0x80) {
        r.v = Verdict::bad_input;
        return r;
      }
      r.text += static_cast<char32_t> (static_cast<unsigned char> (c));
    }
    in = in.substr (d + 1);
  }
  static constexpr big cap = big{1} << 100;
  big n = 0x80, i = 0;
  unsigned long bias = 72;
  std::size_t p = 0;
  bool beyond = false;
  auto fail = [&] (bool big_seen) {
    r.v = big_seen || beyond ? Verdict::error : Verdict::bad_input;
    return r;
  };
  while (p < in.size ()) {
    big const oldi = i;
    big w = 1;
    bool huge = false;  // an implementation may have reported overflow already
    for (unsigned long k = 36;; k += 36) {
      if (p == in.size ()) {
        return fail (huge);
      }
      auto const c = static_cast<unsigned char> (in[p++]);
      unsigned digit;
      if (c >= '0' && c <= '9') {
        digit = c - '0' + 26;
      } else if (c >= 'a' && c <= 'z') {
        digit = c - 'a';
      } else if (c >= 'A' && c <= 'Z') {
        digit = c - 'A';
      } else {
        return fail (huge);
      }
      i += big{digit} * w;
      if (i > cap) {
        i = cap;
      }
      auto const t = threshold (k, bias);
      if (digit < t) {
        break;
      }
      w *= 36 - t;
      if (w > cap) {
        w = cap;
      }
      huge = huge || i >= (big{1} << 31) || w >= (big{1} << 31);
    }
    auto const len = r.text.size () + 1;
    bias = adapt (i - oldi, len, oldi == 0);
    n += i / len;
    i %= len;
    if (n > 0xFFFFFFFF) {
      r.v = beyond || r.beyond_unicode ? Verdict::error : Verdict::overflow;
      return r;
    }
    if (n > 0x10FFFF) {
      beyond = true;
      r.beyond_unicode = true;
    }
    r.text.insert (static_cast<std::size_t> (i), 1, static_cast<char32_t> (n));
    ++i;
  }
  if (beyond) {
    r.v = Verdict::ok_or_error;
  }
  return r;
}

inline std::string utf8 (std::u32string const& s) {
  std::u32string clean;
  for (char32_t const c : s) {
    clean += utf::is_surr (c) || c > 0x10FFFF ? char32_t{0xFFFD} : c;
  }
  auto const u = utf::encode8 (clean);
  return {u.begin (), u.end ()};
}
inline utf::Decoded from_utf8 (sv s) {
  std::vector<std::uint8_t> const u{s.begin (), s.end ()};
  return utf::decode8 (u);
}

// Host in IDNA ASCII form; nullopt when nothing needs to change.
inline std::optional<std::string> host_encode (sv host) {
  auto const d = from_utf8 (host);
  std::string out;
  bool any = false;
  std::u32string label;
  auto flush = [&] {
    auto const e = encode (label, true);
    if (e.non_ascii) {
      out += "xn--";
      any = true;
    }
    out += e.text;
    label.clear ();
  };
  for (char32_t const c : d.cps) {
    if (c == U'.') {
      flush ();
      out += '.';
    } else {
      label += c;
    }
  }
  flush ();
  if (!any) {
    return {};
  }
  return out;
}

struct HostDecoded {
  Verdict v = Verdict::ok;
  std::string text;
  bool changed = false;
  bool unspecified = false;  // left open: the host "xn--", a lone leading delimiter, values that are not Unicode
                             // scalar values
};
inline HostDecoded host_decode (sv host) {
  HostDecoded r;
  std::size_t start = 0;
  for (;;) {
    auto const dot = host.find ('.', start);
    auto const label = host.substr (start, dot == sv::npos ? sv::npos : dot - start);
    if (label.substr (0, 4) == "xn--") {
      auto const body = label.substr (4);
      if (body.rfind ('-') == 0 || host.size () == 4) {
        r.unspecified = true;
      }
      r.changed = true;
      auto const d = decode (body, false);
      if (d.v != Verdict::ok && r.v == Verdict::ok) {
        r.v = d.v;
      }
      for (char32_t const c : d.text) {
        if (utf::is_surr (c) || c > 0x10FFFF) {
          r.unspecified = true;
        }
      }
      r.text += utf8 (d.text);
    } else {
      r.text += label;
    }
    if (dot == sv::npos) {
      return r;
    }
    r.text += '.';
    start = dot + 1;
  }
}

}  // namespace puny
#endif
