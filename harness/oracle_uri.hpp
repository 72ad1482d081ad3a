// Independent RFC 3986 oracle: delimiter search + character classes. Shares no code or
// technique with the library under test (no recursive descent / PEG, no <cctype>).
#ifndef ORACLE_URI_HPP
#define ORACLE_URI_HPP
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace orc {

using sv = std::string_view;
using osv = std::optional<std::string_view>;

inline bool is_alpha (unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
inline bool is_digit (unsigned char c) { return c >= '0' && c <= '9'; }
inline bool is_hex (unsigned char c) { return is_digit (c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
inline bool is_unreserved (unsigned char c) {
  return is_alpha (c) || is_digit (c) || c == '-' || c == '.' || c == '_' || c == '~';
}
inline bool is_subdelim (unsigned char c) {
  return c != 0 && sv{"!$&'()*+,;="}.find (static_cast<char> (c)) != sv::npos;
}

// every char is unreserved / sub-delims / one of extra / a complete pct triplet
inline bool chars_ok (sv s, sv extra, bool pct = true) {
  for (std::size_t i = 0; i < s.size (); ++i) {
    auto const c = static_cast<unsigned char> (s[i]);
    if (is_unreserved (c) || is_subdelim (c)) {
      continue;
    }
    if (c != 0 && extra.find (s[i]) != sv::npos) {
      continue;
    }
    if (pct && c == '%' && i + 2 < s.size () && is_hex (static_cast<unsigned char> (s[i + 1])) &&
        is_hex (static_cast<unsigned char> (s[i + 2]))) {
      i += 2;
      continue;
    }
    return false;
  }
  return true;
}

inline bool scheme_ok (sv s) {
  if (s.empty () || !is_alpha (static_cast<unsigned char> (s[0]))) {
    return false;
  }
  for (char const ch : s) {
    auto const c = static_cast<unsigned char> (ch);
    if (!(is_alpha (c) || is_digit (c) || c == '+' || c == '-' || c == '.')) {
      return false;
    }
  }
  return true;
}
inline bool userinfo_ok (sv s) { return chars_ok (s, ":"); }
inline bool port_ok (sv s) {
  for (char const c : s) {
    if (!is_digit (static_cast<unsigned char> (c))) {
      return false;
    }
  }
  return true;
}
inline bool segment_ok (sv s) { return chars_ok (s, ":@"); }
inline bool query_ok (sv s) { return chars_ok (s, ":@/?"); }

inline std::vector<sv> split_on (sv s, char d) {
  std::vector<sv> r;
  std::size_t start = 0;
  for (;;) {
    auto const p = s.find (d, start);
    if (p == sv::npos) {
      r.push_back (s.substr (start));
      return r;
    }
    r.push_back (s.substr (start, p - start));
    start = p + 1;
  }
}

inline bool ipv4_ok (sv s) {
  auto const parts = split_on (s, '.');
  if (parts.size () != 4) {
    return false;
  }
  for (auto const p : parts) {
    if (p.empty () || p.size () > 3 || !port_ok (p)) {
      return false;
    }
    if (p.size () > 1 && p[0] == '0') {
      return false;
    }
    int v = 0;
    for (char const c : p) {
      v = v * 10 + (c - '0');
    }
    if (v > 255) {
      return false;
    }
  }
  return true;
}

// number of 16-bit groups in a colon separated list, or -1; `tail` permits an IPv4 address last
inline int groups (sv s, bool tail) {
  if (s.empty ()) {
    return 0;
  }
  auto const parts = split_on (s, ':');
  int n = 0;
  for (std::size_t i = 0; i < parts.size (); ++i) {
    auto const p = parts[i];
    if (tail && i + 1 == parts.size () && p.find ('.') != sv::npos) {
      if (!ipv4_ok (p)) {
        return -1;
      }
      n += 2;
      continue;
    }
    if (p.empty () || p.size () > 4) {
      return -1;
    }
    for (char const c : p) {
      if (!is_hex (static_cast<unsigned char> (c))) {
        return -1;
      }
    }
    ++n;
  }
  return n;
}

inline bool ipv6_ok (sv s) {
  auto const e = s.find ("::");
  if (e == sv::npos) {
    return groups (s, true) == 8;
  }
  auto const left = s.substr (0, e);
  auto const right = s.substr (e + 2);
  if (right.find ("::") != sv::npos) {
    return false;
  }
  auto const a = groups (left, false);
  auto const b = groups (right, true);
  return a >= 0 && b >= 0 && a + b <= 7;
}

inline bool ipvfuture_ok (sv s) {
  if (s.size () < 2 || (s[0] != 'v' && s[0] != 'V')) {
    return false;
  }
  auto const dot = s.find ('.');
  if (dot == sv::npos || dot < 2 || dot + 1 >= s.size ()) {
    return false;
  }
  for (char const c : s.substr (1, dot - 1)) {
    if (!is_hex (static_cast<unsigned char> (c))) {
      return false;
    }
  }
  return chars_ok (s.substr (dot + 1), ":", false);
}

inline bool host_ok (sv s) {
  if (!s.empty () && s.front () == '[') {
    if (s.size () < 2 || s.back () != ']') {
      return false;
    }
    auto const in = s.substr (1, s.size () - 2);
    return ipv6_ok (in) || ipvfuture_ok (in);
  }
  return chars_ok (s, "");  // reg-name (IPv4address is a subset)
}

struct Parts {
  osv scheme;
  bool has_auth = false;
  osv userinfo;
  sv host;
  osv port;
  sv path;
  osv query;
  osv fragment;

  bool absolute () const { return !path.empty () && path.front () == '/'; }
  std::vector<sv> segments () const {
    if (path.empty ()) {
      return {};
    }
    return split_on (absolute () ? path.substr (1) : path, '/');
  }
};

inline std::optional<Parts> parse (sv in, bool need_scheme) {
  Parts p;
  sv rest = in;
  if (auto const h = rest.find ('#'); h != sv::npos) {
    p.fragment = rest.substr (h + 1);
    rest = rest.substr (0, h);
    if (!query_ok (*p.fragment)) {
      return {};
    }
  }
  if (auto const q = rest.find ('?'); q != sv::npos) {
    p.query = rest.substr (q + 1);
    rest = rest.substr (0, q);
    if (!query_ok (*p.query)) {
      return {};
    }
  }
  auto const colon = rest.find (':');
  auto const slash = rest.find ('/');
  if (colon != sv::npos && (slash == sv::npos || colon < slash)) {
    p.scheme = rest.substr (0, colon);
    rest = rest.substr (colon + 1);
    if (!scheme_ok (*p.scheme)) {
      return {};  // a relative reference cannot have a colon in its first segment
    }
  } else if (need_scheme) {
    return {};
  }
  if (rest.substr (0, 2) == "//") {
    p.has_auth = true;
    rest = rest.substr (2);
    auto const end = rest.find ('/');
    sv auth = rest.substr (0, end);
    rest = end == sv::npos ? rest.substr (rest.size ()) : rest.substr (end);
    if (auto const at = auth.find ('@'); at != sv::npos) {
      p.userinfo = auth.substr (0, at);
      auth = auth.substr (at + 1);
      if (!userinfo_ok (*p.userinfo)) {
        return {};
      }
    }
    std::size_t port_colon;
    if (!auth.empty () && auth.front () == '[') {
      auto const close = auth.find (']');
      if (close == sv::npos) {
        return {};
      }
      port_colon = close + 1;
      if (port_colon < auth.size () && auth[port_colon] != ':') {
        return {};
      }
      if (port_colon == auth.size ()) {
        port_colon = sv::npos;
      }
    } else {
      port_colon = auth.find (':');
    }
    if (port_colon != sv::npos) {
      p.port = auth.substr (port_colon + 1);
      auth = auth.substr (0, port_colon);
      if (!port_ok (*p.port)) {
        return {};
      }
    }
    p.host = auth;
    if (!host_ok (p.host)) {
      return {};
    }
  }
  p.path = rest;
  for (auto const seg : split_on (p.path, '/')) {
    if (!segment_ok (seg)) {
      return {};
    }
  }
  return p;
}

struct Text {  // a target URI as component texts
  std::optional<std::string> scheme;
  std::optional<std::string> authority;
  std::string path;
  std::optional<std::string> query;
  std::optional<std::string> fragment;
  std::string compose () const {
    std::string r;
    if (scheme) {
      r += *scheme + ":";
    }
    if (authority) {
      r += "//" + *authority;
    }
    r += path;
    if (query) {
      r += "?" + *query;
    }
    if (fragment) {
      r += "#" + *fragment;
    }
    return r;
  }
};

// RFC 3986 5.2.4, transcribed literally: input buffer / output buffer.
inline std::string remove_dots (std::string const& text) {
  std::string out;
  sv in = text;  // the input buffer: always a tail of the text, or a single slash
  auto starts = [&in] (sv p) { return in.substr (0, p.size ()) == p; };
  while (!in.empty ()) {
    if (starts ("../")) {
      in.remove_prefix (3);
    } else if (starts ("./")) {
      in.remove_prefix (2);
    } else if (starts ("/./")) {
      in.remove_prefix (2);
    } else if (in == "/.") {
      in = "/";
    } else if (starts ("/../") || in == "/..") {
      in = in == "/.." ? sv{"/"} : in.substr (3);
      auto const p = out.rfind ('/');
      out.erase (p == std::string::npos ? 0 : p);
    } else if (in == "." || in == "..") {
      in = {};
    } else {
      auto const p = in.find ('/', 1);
      out += in.substr (0, p);
      in = p == sv::npos ? sv{} : in.substr (p);
    }
  }
  return out;
}

inline std::optional<std::string> authority_text (Parts const& p) {
  if (!p.has_auth) {
    return {};
  }
  std::string r;
  if (p.userinfo) {
    r += std::string{*p.userinfo} + "@";
  }
  r += p.host;
  if (p.port) {
    r += ":" + std::string{*p.port};
  }
  return r;
}

inline std::optional<std::string> own (osv const& s) {
  return s ? std::optional<std::string>{std::string{*s}} : std::nullopt;
}

// RFC 3986 5.2.2 (with 5.2.3 merge). `loose` receives an alternative path that is
// acceptable for bases without authority whose merged path is relative (see C05).
inline Text resolve (Parts const& b, Parts const& r, bool strict, std::optional<std::string>* loose = nullptr) {
  Text t;
  auto rs = r.scheme;
  if (!strict && rs && b.scheme && *rs == *b.scheme) {
    rs.reset ();
  }
  std::string raw;
  if (rs) {
    t.scheme = own (rs);
    t.authority = authority_text (r);
    raw = r.path;
    t.path = remove_dots (raw);
    t.query = own (r.query);
  } else {
    if (r.has_auth) {
      t.authority = authority_text (r);
      raw = r.path;
      t.path = remove_dots (raw);
      t.query = own (r.query);
    } else {
      if (r.path.empty ()) {
        t.path = b.path;
        t.query = r.query ? own (r.query) : own (b.query);
      } else {
        if (r.path.front () == '/') {
          raw = r.path;
        } else if (b.has_auth && b.path.empty ()) {
          raw = "/" + std::string{r.path};
        } else {
          auto const p = b.path.rfind ('/');
          raw = (p == sv::npos ? std::string{} : std::string{b.path.substr (0, p + 1)}) + std::string{r.path};
        }
        t.path = remove_dots (raw);
        t.query = own (r.query);
      }
      t.authority = authority_text (b);
    }
    t.scheme = own (b.scheme);
  }
  t.fragment = own (r.fragment);
  if (loose != nullptr && !t.authority && !raw.empty () && raw.front () != '/') {
    // Segment-stack reading for relative paths: same segments, stays relative.
    std::vector<sv> st;
    bool dir = false;
    for (auto const s : split_on (raw, '/')) {
      dir = false;
      if (s == ".") {
        dir = true;
      } else if (s == "..") {
        dir = true;
        if (!st.empty ()) {
          st.pop_back ();
        }
      } else {
        st.push_back (s);
      }
    }
    std::string p;
    for (std::size_t i = 0; i < st.size (); ++i) {
      p += (i != 0 ? "/" : "");
      p += st[i];
    }
    if (dir && !st.empty ()) {
      p += "/";
    }
    *loose = p;
  }
  return t;
}

}  // namespace orc
#endif
