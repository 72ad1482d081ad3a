// Helpers over uri::parts written against its public members only.
#ifndef PARTS_COMMON_HPP
#define PARTS_COMMON_HPP
#include <sstream>

#include "oracle_uri.hpp"
#include "uri/uri.hpp"
#include "vf.hpp"

namespace pc {
using sv = std::string_view;
using osv = std::optional<std::string_view>;

inline std::string show (osv const& s) { return s ? vf::esc (*s, 120) : std::string{"absent"}; }
inline std::string show (uri::parts const& p) {
  std::string r = "{scheme=" + show (p.scheme);
  if (p.authority) {
    r += " userinfo=" + show (p.authority->userinfo) + " host=" + vf::esc (p.authority->host, 120) + " port=" + show (p.authority->port);
  } else {
    r += " no-authority";
  }
  r += p.path.absolute ? " path(abs)=[" : " path(rel)=[";
  std::size_t n = 0;
  for (auto const s : p.path.segments) {
    r += (n != 0 ? "," : "") + vf::esc (s, 60);
    if (++n == 40) {
      r += ",...";
      break;
    }
  }
  r += "] query=" + show (p.query) + " fragment=" + show (p.fragment) + "}";
  return r;
}

inline std::string join_segments (std::vector<sv> const& segs) {
  std::string r;
  for (std::size_t i = 0; i < segs.size (); ++i) {
    if (i != 0) {
      r += '/';
    }
    r += segs[i];
  }
  return r;
}
// text of a path on its own
inline std::string path_text (struct uri::parts::path const& p) {
  if (p.segments.empty ()) {
    return {};
  }
  return (p.absolute ? "/" : "") + join_segments (p.segments);
}
// text of the path as it appears in the composed reference
inline std::string path_in_text (uri::parts const& p) {
  auto r = path_text (p.path);
  if (p.authority && !p.path.segments.empty () && !p.path.absolute) {
    r.insert (0, 1, '/');
  }
  return r;
}
inline std::optional<std::string> own (osv const& s) {
  return s ? std::optional<std::string>{std::string{*s}} : std::nullopt;
}
inline std::string authority_text (struct uri::parts::authority const& a) {
  std::string r;
  if (a.userinfo) {
    r += std::string{*a.userinfo} + "@";
  }
  r += a.host;
  if (a.port) {
    r += ":" + std::string{*a.port};
  }
  return r;
}
// the five RFC components as text
inline orc::Text texts (uri::parts const& p) {
  orc::Text t;
  t.scheme = own (p.scheme);
  if (p.authority) {
    t.authority = authority_text (*p.authority);
  }
  t.path = path_in_text (p);
  t.query = own (p.query);
  t.fragment = own (p.fragment);
  return t;
}
inline std::string compose (uri::parts const& p) { return texts (p).compose (); }

inline bool same (orc::Text const& a, orc::Text const& b) {
  return a.scheme == b.scheme && a.authority == b.authority && a.path == b.path && a.query == b.query && a.fragment == b.fragment;
}

// order-independent of library operator==
inline bool same_parts (uri::parts const& a, uri::parts const& b) {
  if (a.scheme != b.scheme || a.authority.has_value () != b.authority.has_value () || a.path.absolute != b.path.absolute ||
      a.path.segments != b.path.segments || a.query != b.query || a.fragment != b.fragment) {
    return false;
  }
  return !a.authority || (a.authority->userinfo == b.authority->userinfo && a.authority->host == b.authority->host &&
                          a.authority->port == b.authority->port);
}

template <typename F> void each_view (uri::parts const& p, F f) {
  if (p.scheme) {
    f ("scheme", *p.scheme);
  }
  if (p.authority) {
    if (p.authority->userinfo) {
      f ("userinfo", *p.authority->userinfo);
    }
    f ("host", p.authority->host);
    if (p.authority->port) {
      f ("port", *p.authority->port);
    }
  }
  for (auto const s : p.path.segments) {
    f ("segment", s);
  }
  if (p.query) {
    f ("query", *p.query);
  }
  if (p.fragment) {
    f ("fragment", *p.fragment);
  }
}
}  // namespace pc
#endif
