// Workload generation: URI-like text from the RFC 3986 ABNF, mutations, structured enumeration.
#ifndef GEN_URI_HPP
#define GEN_URI_HPP
#include "vf.hpp"

namespace gen {
using vf::Rng;
using vf::u64;
using sv = std::string_view;

inline std::string rep (Rng& r, u64 lo, u64 hi, std::function<void (std::string&)> const& f) {
  std::string s;
  for (u64 n = r.range (lo, hi); n > 0; --n) {
    f (s);
  }
  return s;
}
// mostly short, sometimes around small-buffer and power-of-two boundaries
inline u64 len (Rng& r, u64 lo = 0) {
  switch (r.below (40)) {
  case 0: return std::max<u64> (lo, r.range (13, 18));
  case 1: return std::max<u64> (lo, r.range (30, 34));
  case 2: return r.chance (1, 4) ? r.range (250, 260) : lo;
  case 3:
  case 4: return lo + r.below (24);
  case 5: return lo + r.below (r.chance (1, 4) ? 140 : 48);
  default: return lo + r.below (5);
  }
}
inline constexpr sv alnum = "ABCXYZGFabcdefgvxyz0123456789";
inline constexpr sv subd = "!$&'()*+,;=";
inline constexpr sv hexd = "0123456789abcdefABCDEF";

inline void pct (Rng& r, std::string& s) {
  s += '%';
  s += r.pick_char (hexd);
  s += r.pick_char (hexd);
}
inline void unreserved (Rng& r, std::string& s) {
  s += r.chance (1, 6) ? r.pick_char ("-._~") : r.pick_char (alnum);
}
inline void pchar_like (Rng& r, std::string& s, sv extra) {
  switch (r.below (8)) {
  case 0: pct (r, s); break;
  case 1: s += r.pick_char (subd); break;
  case 2:
    if (!extra.empty ()) {
      s += r.pick_char (extra);
      break;
    }
    [[fallthrough]];
  default: unreserved (r, s); break;
  }
}
inline std::string word (Rng& r, u64 lo, sv extra) {
  u64 const n = len (r, lo);
  return rep (r, n, n, [&] (std::string& s) { pchar_like (r, s, extra); });
}
inline std::string scheme (Rng& r) {
  switch (r.below (8)) {
  case 0: return "http";
  case 1: return "s";
  default: break;
  }
  std::string s (1, r.pick_char ("abcxyzABCXYZgG"));
  for (u64 n = len (r); n > 0; --n) {
    s += r.chance (1, 4) ? r.pick_char ("+-.") : r.pick_char (alnum);
  }
  return s;
}
inline std::string h16 (Rng& r) {
  u64 const n = r.range (1, 4);
  return rep (r, n, n, [&] (std::string& s) { s += r.pick_char (hexd); });
}
inline std::string octet (Rng& r) {
  static constexpr unsigned edge[] = {0, 1, 9, 10, 19, 99, 100, 199, 200, 249, 250, 255};
  return std::to_string (r.chance (1, 2) ? r.pick (edge) : r.below (256));
}
inline std::string ipv4 (Rng& r) { return octet (r) + "." + octet (r) + "." + octet (r) + "." + octet (r); }
inline std::string ipv6 (Rng& r) {
  // pick a legal shape: a groups, optional ::, b groups, optional IPv4 tail (worth 2)
  bool const tail = r.chance (1, 3);
  auto list = [&] (u64 n) {
    std::string s;
    for (u64 i = 0; i < n; ++i) {
      s += (i != 0 ? ":" : "") + h16 (r);
    }
    return s;
  };
  if (r.chance (1, 4)) {
    return tail ? list (6) + ":" + ipv4 (r) : list (8);
  }
  u64 const total = r.below (8);
  u64 b = r.below (total + 1);
  u64 const a = total - b;
  std::string right;
  if (tail && b >= 2) {
    right = list (b - 2) + (b > 2 ? ":" : "") + ipv4 (r);
  } else {
    right = list (b);
  }
  return list (a) + "::" + right;
}
inline std::string ipvfuture (Rng& r) {
  std::string s = r.chance (1, 2) ? "v" : "V";
  for (u64 n = len (r, 1); n > 0; --n) {
    s += r.pick_char (hexd);
  }
  s += '.';
  for (u64 n = len (r, 1); n > 0; --n) {
    switch (r.below (4)) {
    case 0: s += r.pick_char (subd); break;
    case 1: s += ':'; break;
    default: unreserved (r, s);
    }
  }
  return s;
}
inline std::string host (Rng& r) {
  switch (r.below (12)) {
  case 0:
  case 1: return "[" + ipv6 (r) + "]";
  case 2: return "[" + ipvfuture (r) + "]";
  case 3: return ipv4 (r);
  case 4: {  // IPv4 look-alikes
    std::string s = ipv4 (r);
    switch (r.below (5)) {
    case 0: return s + "." + word (r, 1, "");
    case 1: return s + word (r, 1, "");
    case 2: return s + "%41";
    case 3: return std::to_string (r.below (1000)) + "." + std::to_string (r.below (1000)) + "." +
                   std::to_string (r.below (1000)) + "." + std::to_string (r.below (1000));
    default: return s.substr (0, r.below (s.size ()));
    }
  }
  case 5: return "";
  default: return word (r, 0, "");
  }
}
inline std::string port (Rng& r) {
  u64 const n = len (r);
  return rep (r, n, n, [&] (std::string& s) { s += r.pick_char ("0123456789"); });
}
inline std::string segment (Rng& r, u64 lo = 0, bool colon = true) {
  switch (r.below (10)) {
  case 0: return ".";
  case 1: return "..";
  case 2:
    if (lo == 0) {
      return "";
    }
    [[fallthrough]];
  default: return word (r, lo, colon ? ":@" : "@");
  }
}
inline std::string authority (Rng& r) {
  std::string s;
  if (r.chance (1, 3)) {
    s += word (r, 0, ":") + "@";
  }
  s += host (r);
  if (r.chance (1, 3)) {
    s += ":" + port (r);
  }
  return s;
}
inline u64 nsegs (Rng& r) { return r.chance (1, 40) ? r.range (5, 70) : r.below (5); }
inline std::string tail_segs (Rng& r) {
  std::string s;
  for (u64 n = nsegs (r); n > 0; --n) {
    s += "/" + segment (r);
  }
  return s;
}
inline std::string hier (Rng& r, bool noscheme) {
  switch (r.below (6)) {
  case 0: return "";
  case 1: {
    std::string s = "/";
    if (r.chance (3, 4)) {
      s += segment (r, 1) + tail_segs (r);
    }
    return s;
  }
  case 2: return segment (r, 1, !noscheme) + tail_segs (r);
  default: return "//" + authority (r) + tail_segs (r);
  }
}
inline std::string suffix (Rng& r) {
  std::string s;
  if (r.chance (2, 5)) {
    s += "?" + (r.chance (1, 5) ? std::string{} : word (r, 0, ":@/?"));
  }
  if (r.chance (2, 5)) {
    s += "#" + (r.chance (1, 5) ? std::string{} : word (r, 0, ":@/?"));
  }
  return s;
}
// the values that occur in the wild, in every combination: nothing about them is special to the grammar
namespace real {
inline constexpr sv users[] = {
  "user", "user:pw", "anonymous", "user:", ":pw", "me%40x", "", "root:80", "www"};
inline constexpr sv hosts[] = {
  "localhost", "127.0.0.1", "[::1]", "example.com", "www.example.com", "EXAMPLE.com", "0.0.0.0", "255.255.255.255",
  "192.168.0.1", "[fe80::1]", "[::ffff:1.2.3.4]", "xn--bcher-kva.example", "example.com.", "", "[v1.x]",
  "%6cocalhost", "1.2.3", "0x7f.1", "256.0.0.1", "example", "a_b", "[::]", "[FE80::A]", "LOCALHOST"};
inline constexpr sv ports[] = {
  "", "80", "443", "8080", "0", "21", "22", "65535", "65536", "99999", "00080", "000", "8"};
inline constexpr sv paths[] = {
  "", "/", "/index.html", "/a/b/../c", "/%7Euser", "/~user", "/a%2Fb", "/a//b", "/.", "/..", "/C:/x", "/%2e%2e/x",
  "/%2E/", "/%2e", "/%2E%2E", "/a;p=1", "/a,b/", "/index.php/x", "/a/./b/", "/...", "/a/b/", "/favicon.ico",
  "/.well-known/x", "/a:b", "/@me", "/%00", "/%20"};
inline constexpr sv queries[] = {
  "", "q=1", "a=b&c=d", "x=%20+", "?", "/", "one?two", "u=http://h/p?q", "..", "a;b"};
inline constexpr sv fragments[] = {
  "", "top", "a/b", "?", "!/x", "L10", "%23", ":~:text=x"};
inline constexpr sv schemes[] = {
  "http", "https", "ftp", "file", "mailto", "urn", "data", "ws", "wss", "ssh", "tel", "news", "ldap", "telnet",
  "javascript", "about", "blob", "git", "HTTP", "Https", "git+ssh", "view-source", "h323", "z39.50r", "C", "x"};
inline constexpr sv opaque[] = {
  "user@example.com", "example:animal:ferret:nose", "isbn:0451450523", "text/plain;base64,AA==", "+1-816-555-1212",
  "comp.lang.c", "blank", "alert(1)", "a/b", "", ".", "..", "C:/x", "../g", "./g", "g;x=1/../y", "uuid:f81d4fae-7dec",
  "/a", "g"};
}  // namespace real
inline std::string realistic_authority (Rng& r) {
  std::string s;
  if (r.chance (1, 3)) {
    s += std::string{r.pick (real::users)} + "@";
  }
  s += r.pick (real::hosts);
  if (r.chance (1, 2)) {
    s += ":" + std::string{r.pick (real::ports)};
  }
  return s;
}
inline std::string realistic_tail (Rng& r) {
  std::string s{r.pick (real::paths)};
  if (s != "/" && r.chance (1, 4)) {
    s += r.pick (real::paths);
  }
  if (r.chance (1, 3)) {
    s += "?" + std::string{r.pick (real::queries)};
  }
  if (r.chance (1, 3)) {
    s += "#" + std::string{r.pick (real::fragments)};
  }
  return s;
}
inline std::string realistic (Rng& r, bool scheme) {
  std::string const s = scheme ? std::string{r.pick (real::schemes)} + ":" : "";
  return s + (r.chance (1, 3) ? std::string{r.pick (real::opaque)} : r.chance (4, 5) ? "//" + realistic_authority (r) : "") + realistic_tail (r);
}
inline std::string uri (Rng& r) {
  return r.chance (1, 8) ? realistic (r, true) : scheme (r) + ":" + hier (r, false) + suffix (r);
}
inline std::string relative (Rng& r) { return r.chance (1, 8) ? realistic (r, false) : hier (r, true) + suffix (r); }
inline std::string reference (Rng& r) { return r.chance (1, 2) ? uri (r) : relative (r); }

inline std::string bytes (Rng& r, u64 n) {
  std::string s;
  for (; n > 0; --n) {
    s += static_cast<char> (r.below (256));
  }
  return s;
}

inline void mutate (Rng& r, std::string& s) {
  static constexpr sv special = ":/?#[]@!$&'()*+,;=%-._~ \\^|{}<>\"`0aAgGzZvV";
  auto ch = [&] () -> char {
    return r.chance (1, 5) ? static_cast<char> (r.below (256)) : r.pick_char (special);
  };
  if (s.empty ()) {
    s += ch ();
    return;
  }
  u64 const p = r.below (s.size ());
  switch (r.below (8)) {
  case 0: s.erase (p, 1); break;
  case 1: s.insert (p, 1, ch ()); break;
  case 2: s[p] = ch (); break;
  case 3: s.resize (p); break;
  case 4: {  // duplicate a piece
    u64 const n = 1 + r.below (std::min<u64> (8, s.size () - p));
    s.insert (r.below (s.size () + 1), s.substr (p, n));
    break;
  }
  case 5: std::swap (s[p], s[r.below (s.size ())]); break;
  case 6: s += ch (); break;
  default: s[p] = static_cast<char> (s[p] ^ (1 << r.below (8))); break;
  }
}

// a name over `alphabet` for an enumeration index: strings in length order
inline std::string nth_string (u64 idx, sv alphabet) {
  std::string s;
  u64 const k = alphabet.size ();
  u64 n = 1, length = 0;
  while (idx >= n) {
    idx -= n;
    n *= k;
    ++length;
  }
  for (u64 i = 0; i < length; ++i) {
    s += alphabet[idx % k];
    idx /= k;
  }
  return s;
}
constexpr u64 count_strings (u64 k, u64 maxlen) {
  u64 total = 0, n = 1;
  for (u64 l = 0; l <= maxlen; ++l) {
    total += n;
    n *= k;
  }
  return total;
}

}  // namespace gen
#endif
