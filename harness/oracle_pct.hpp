// Percent-encode sets and coding, written from the WHATWG URL definition.
#ifndef ORACLE_PCT_HPP
#define ORACLE_PCT_HPP
#include <string>
#include <string_view>

namespace pct {
using sv = std::string_view;

enum class Set { none, fragment, query, special_query, path, userinfo, component, form_urlencoded };
inline constexpr char const* set_names[] = {"none", "fragment", "query", "special_query", "path", "userinfo", "component", "form_urlencoded"};

// printable ASCII characters that are escaped (space, C0 and >= 0x7F always are)
inline constexpr sv punct[] = {"",
                               "\"<>%",
                               "\"<>#%",
                               "\"<>#%'",
                               "\"<>#%?`{}",
                               "\"<>#%?`{}/:;=@[\\]^|",
                               "\"<>#%?`{}/:;=@[\\]^|$&+,",
                               "\"<>#%?`{}/:;=@[\\]^|$&+,!'()~"};

inline bool escaped (unsigned char c, Set s) {
  return c <= 0x20 || c >= 0x7F || punct[static_cast<unsigned> (s)].find (static_cast<char> (c)) != sv::npos;
}
inline std::string encode (sv in, Set s) {
  static constexpr char hex[] = "0123456789ABCDEF";
  std::string r;
  for (char const ch : in) {
    auto const c = static_cast<unsigned char> (ch);
    if (escaped (c, s)) {
      r += '%';
      r += hex[c / 16];
      r += hex[c % 16];
    } else {
      r += ch;
    }
  }
  return r;
}
inline int hexv (char c) {
  static constexpr sv lower = "0123456789abcdef", upper = "0123456789ABCDEF";
  if (auto const p = lower.find (c); p != sv::npos) {
    return static_cast<int> (p);
  }
  if (auto const p = upper.find (c); p != sv::npos) {
    return static_cast<int> (p);
  }
  return -1;
}
inline std::string decode (sv s) {
  std::string r;
  while (!s.empty ()) {
    if (s.size () >= 3 && s[0] == '%' && hexv (s[1]) >= 0 && hexv (s[2]) >= 0) {
      r += static_cast<char> (hexv (s[1]) * 16 + hexv (s[2]));
      s = s.substr (3);
    } else {
      r += s[0];
      s = s.substr (1);
    }
  }
  return r;
}
}  // namespace pct
#endif
