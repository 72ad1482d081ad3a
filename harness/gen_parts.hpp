// Arbitrary component tuples, including ones no parser would produce.
#ifndef GEN_PARTS_HPP
#define GEN_PARTS_HPP
#include <deque>

#include "gen_uri.hpp"
#include "parts_common.hpp"

namespace gp {
using vf::Rng;
using vf::u64;
using sv = std::string_view;

// Owns exactly-sized copies of every text of a parts value.
struct Owned {
  std::vector<vf::Block> store;
  std::vector<sv> held;
  bool alias = false;  // values may be views of texts other values view
  uri::parts p;
  Owned () = default;
  Owned (Owned&&) = default;
  Owned& operator= (Owned&&) = default;

  sv hold (sv s) {
    if (s.data () == nullptr) {
      return s;
    }
    held.push_back (store.emplace_back (s).view ());
    return held.back ();
  }
  // a view that shares memory with another value: all of it, or the same start or the same end
  sv shared (Rng& r) const {
    auto const s = r.pick (held);
    auto const n = static_cast<std::size_t> (r.below (s.size () + 1));
    switch (r.below (4)) {
    case 0: return s;
    case 1: return s.substr (n);
    case 2: return s.substr (n, r.below (s.size () - n + 1));
    default: return s.substr (0, n);
    }
  }
  // same texts stored elsewhere
  Owned clone () const {
    Owned o;
    o.p = p;
    auto re = [&o] (std::optional<sv>& s) {
      if (s) {
        s = o.hold (*s);
      }
    };
    re (o.p.scheme);
    if (o.p.authority) {
      re (o.p.authority->userinfo);
      o.p.authority->host = o.hold (o.p.authority->host);
      re (o.p.authority->port);
    }
    for (auto& s : o.p.path.segments) {
      s = o.hold (s);
    }
    re (o.p.query);
    re (o.p.fragment);
    return o;
  }
};

enum class Field { scheme, userinfo, host, port, segment, query, fragment };

inline std::string legal (Rng& r, Field f) {
  if (r.chance (1, 6)) {
    switch (f) {
    case Field::scheme: return std::string{r.pick (gen::real::schemes)};
    case Field::userinfo: return std::string{r.pick (gen::real::users)};
    case Field::host: return std::string{r.pick (gen::real::hosts)};
    case Field::port: return std::string{r.pick (gen::real::ports)};
    case Field::query: return std::string{r.pick (gen::real::queries)};
    case Field::fragment: return std::string{r.pick (gen::real::fragments)};
    case Field::segment: {
      auto const s = r.pick (gen::real::paths);
      auto const p = s.rfind ('/');
      return std::string{p == sv::npos ? s : s.substr (p + 1)};
    }
    }
  }
  switch (f) {
  case Field::scheme: return gen::scheme (r);
  case Field::userinfo: return gen::word (r, 0, ":");
  case Field::host: return gen::host (r);
  case Field::port: return gen::port (r);
  case Field::segment: return gen::segment (r);
  case Field::query:
  case Field::fragment: return gen::word (r, 0, ":@/?");
  }
  return {};
}

inline std::string hostile (Rng& r, Field f) {
  static constexpr sv odd[] = {"a/b", "/", "//", "a?b", "?", "a#b", "#", "@", "a@b", ":", "a:b", "[", "]", "[::1]", "[::1", "[v1.x]",
                               "1.2.3.4", "%", "%4", "%41", "%zz", " ", "a b", "\xC3\xA9", "\xFF", "..", ".", "//h", "s:", "1a", "-a",
                               "a\\b", "a|b", "a\"b", "<>", "{}", "^", "`", "~", "00", "+", "http:", "xn--", "%2F", "%00"};
  switch (r.below (4)) {
  case 0: return gen::bytes (r, r.below (5));
  case 1: {
    auto s = legal (r, f);
    gen::mutate (r, s);
    return s;
  }
  case 2: return legal (r, static_cast<Field> (r.below (7)));
  default: return std::string{r.pick (odd)} + (r.chance (1, 20) ? std::string (1, '\0') : "");
  }
}

// bad: chance in 8 that a value is hostile
inline sv value (Rng& r, Owned& o, Field f, unsigned bad) {
  if (r.chance (1, 16)) {
    return sv{};  // null data
  }
  if (r.chance (1, 16)) {
    return o.hold (sv{"x", 0});
  }
  if (o.alias && !o.held.empty () && r.chance (1, 2)) {
    return o.shared (r);
  }
  return o.hold (r.chance (bad, 8) ? hostile (r, f) : legal (r, f));
}

inline Owned tuple (Rng& r, unsigned bad, u64 max_segments = 6) {
  Owned o;
  o.alias = r.chance (1, 5);
  if (r.chance (7, 8)) {
    o.p.scheme = value (r, o, Field::scheme, bad);
  }
  if (r.chance (1, 2)) {
    auto& a = o.p.ensure_authority ();
    if (r.chance (1, 3)) {
      a.userinfo = value (r, o, Field::userinfo, bad);
    }
    if (r.chance (7, 8)) {
      a.host = value (r, o, Field::host, bad);
    }
    if (r.chance (1, 3)) {
      a.port = value (r, o, Field::port, bad);
    }
  }
  o.p.path.absolute = r.chance (1, 2);
  for (u64 n = r.chance (1, 50) ? r.range (7, 90) : r.below (max_segments + 1); n > 0; --n) {
    o.p.path.segments.push_back (r.chance (1, 4) ? o.hold (sv{"x", 0}) : value (r, o, Field::segment, bad));
  }
  if (r.chance (1, 3)) {
    o.p.query = value (r, o, Field::query, bad);
  }
  if (r.chance (1, 3)) {
    o.p.fragment = value (r, o, Field::fragment, bad);
  }
  return o;
}

}  // namespace gp
#endif
