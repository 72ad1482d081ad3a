// C09: encode()/decode() of whole component sets, field by field.
#include <memory>

#include "gen_parts.hpp"
#include "gen_puny.hpp"
#include "oracle_pct.hpp"
#include "parts_common.hpp"
#include "uri/parts.hpp"

using pc::sv;
using vf::u64;

namespace {

struct Want {
  std::optional<std::string> scheme, userinfo, port, query, fragment;
  std::string host;
  std::vector<std::string> segments;
};

std::optional<std::string> map (std::optional<sv> const& s, pct::Set set) {
  return s ? std::optional<std::string>{pct::encode (*s, set)} : std::nullopt;
}

// What encoding must give for each field.
Want encoded (uri::parts const& p) {
  Want w;
  w.scheme = pc::own (p.scheme);
  if (p.authority) {
    w.userinfo = map (p.authority->userinfo, pct::Set::userinfo);
    w.host = puny::host_encode (p.authority->host).value_or (std::string{p.authority->host});
    w.port = pc::own (p.authority->port);
  }
  for (auto const s : p.path.segments) {
    w.segments.push_back (pct::encode (s, pct::Set::path));
  }
  w.query = map (p.query, pct::Set::query);
  w.fragment = map (p.fragment, pct::Set::fragment);
  return w;
}
Want decoded (uri::parts const& p, std::string const& host) {
  auto dec = [] (std::optional<sv> const& s) { return s ? std::optional<std::string>{pct::decode (*s)} : std::nullopt; };
  Want w;
  w.scheme = pc::own (p.scheme);
  if (p.authority) {
    w.userinfo = dec (p.authority->userinfo);
    w.host = host;
    w.port = pc::own (p.authority->port);
  }
  for (auto const s : p.path.segments) {
    w.segments.push_back (pct::decode (s));
  }
  w.query = dec (p.query);
  w.fragment = dec (p.fragment);
  return w;
}

void compare (vf::Case& c, char const* op, uri::parts const& from, uri::parts const& got, Want const& w) {
  std::string why;
  auto opt = [&] (char const* field, std::optional<sv> const& g, std::optional<std::string> const& x) {
    if (g.has_value () != x.has_value () || (g && *g != *x)) {
      why += std::string{" "} + field + "=" + pc::show (g) + " want " + (x ? vf::esc (*x) : std::string{"absent"});
    }
  };
  opt ("scheme", got.scheme, w.scheme);
  if (got.authority.has_value () != from.authority.has_value ()) {
    why += " authority presence";
  } else if (got.authority) {
    opt ("userinfo", got.authority->userinfo, w.userinfo);
    if (got.authority->host != w.host) {
      why += " host=" + vf::esc (got.authority->host) + " want " + vf::esc (w.host);
    }
    opt ("port", got.authority->port, w.port);
  }
  if (got.path.absolute != from.path.absolute) {
    why += " absolute flag";
  }
  if (got.path.segments.size () != w.segments.size ()) {
    why += " segment count " + std::to_string (got.path.segments.size ());
  } else {
    for (std::size_t i = 0; i < w.segments.size (); ++i) {
      if (got.path.segments[i] != w.segments[i]) {
        why += " segment " + std::to_string (i) + "=" + vf::esc (got.path.segments[i]) + " want " + vf::esc (w.segments[i]);
      }
    }
  }
  opt ("query", got.query, w.query);
  opt ("fragment", got.fragment, w.fragment);
  if (!why.empty ()) {
    c.fail (op, std::string{op} + " of " + pc::show (from) + ":" + why);
  }
}

template <typename Store> uri::parts run_encode (vf::Case& c, char const* op, uri::parts const& p, Store& store) {
  auto const e = uri::encode (store, p);
  compare (c, op, p, e, encoded (p));
  return e;
}

void tallies (vf::Case& c, uri::parts const& p, Want const& w) {
  auto const n = p.path.segments.size ();
  c.tally (n == 0 ? "segments:0" : n < 26 ? "segments:1-25" : n == 26 ? "segments:26" : n < 33 ? "segments:27-32" : "segments:33+");
  bool any = false;
  auto f = [&] (char const* name, std::optional<sv> const& s, std::optional<std::string> const& x) {
    if (!s) {
      return;
    }
    if (s->data () == nullptr) {
      c.tally ("null-field");
    }
    if (*s != *x) {
      c.tally (name);
      any = true;
    }
  };
  if (p.authority) {
    f ("changed:userinfo", p.authority->userinfo, w.userinfo);
    f ("changed:host", p.authority->host, w.host);
  }
  f ("changed:query", p.query, w.query);
  f ("changed:fragment", p.fragment, w.fragment);
  for (std::size_t i = 0; i < n; ++i) {
    if (p.path.segments[i] != w.segments[i]) {
      c.tally (i < 25 ? "changed:segment" : "changed:segment-beyond-25");
      any = true;
    }
  }
  if (any) {
    c.distinct (vf::hash_str (pc::show (p)));
  }
}

void check (vf::Case& c, uri::parts const& p) {
  c.note (pc::show (p));
  std::string s1 = "left over";
  auto const e1 = run_encode (c, "encode", p, s1);
  std::vector<char> s2 (c.idx % 50, 'q');
  auto const e2 = run_encode (c, "encode", p, s2);
  tallies (c, p, encoded (p));

  // decoding arbitrary components
  auto const hd = puny::host_decode (p.authority ? p.authority->host : sv{});
  {
    std::vector<char> d (c.idx % 13, 'r');
    auto const r = uri::decode (d, p);
    if (r.index () == 1 && hd.v == puny::Verdict::ok && !hd.unspecified) {
      compare (c, "decode", p, std::get<1> (r), decoded (p, hd.text));
      c.tally ("decoded");
    } else if (r.index () == 0 && hd.v == puny::Verdict::ok && !hd.unspecified) {
      c.fail ("decode-error", "decoding " + pc::show (p) + " fails: " + std::get<0> (r).message ());
    } else if (r.index () == 1 && !hd.unspecified && hd.v != puny::Verdict::ok_or_error) {
      c.fail ("decode-no-error", "decoding " + pc::show (p) + " should fail");
    }
  }
  // the round trip
  bool const host_ok = !p.authority || (puny::from_utf8 (p.authority->host).ok && !hd.changed && !hd.unspecified);
  if (host_ok) {
    Want w;
    w.scheme = pc::own (p.scheme);
    if (p.authority) {
      w.userinfo = pc::own (p.authority->userinfo);
      w.host = p.authority->host;
      w.port = pc::own (p.authority->port);
    }
    for (auto const s : p.path.segments) {
      w.segments.emplace_back (s);
    }
    w.query = pc::own (p.query);
    w.fragment = pc::own (p.fragment);
    std::string d;
    auto const r = uri::decode (d, e2);
    if (r.index () == 0) {
      c.fail ("round-trip", "decoding the encoding of " + pc::show (p) + " fails: " + std::get<0> (r).message ());
    } else {
      compare (c, "round-trip", p, std::get<1> (r), w);
      c.tally ("round-trips");
    }
  }
  c.sample ([&] { return pc::show (p).substr (0, 150); });
}

constexpr sv texts[] = {"", "a", "%", "%41", "a b", "\"", "/", "?", "#", "<>", "`", "{", "'", "@", ":", "\xC3\xA9", "\x7F", "%zz", "%2", "^|", "~!$&"};
constexpr sv hosts[] = {"", "a", "a.b", "\xC3\xBC", "a.\xC3\xBC.c", "\xE4\xBB\x96.\xC3\xBC", "xn--tda", "1.2.3.4", "[::1]", "\xC3", "a\xFF" "b", "xn--9", "%41"};

sv pick (vf::Rng& r) { return r.chance (1, 12) ? sv{} : r.pick (texts); }

// every subset of fields, several values
void subsets (vf::Case& c) {
  auto const m = c.idx % 256;
  uri::parts p;
  if (m & 1) {
    p.scheme = c.rng.chance (1, 8) ? sv{} : sv{"s"};
  }
  if (m & 2) {
    auto& a = p.ensure_authority ();
    if (m & 4) {
      a.userinfo = pick (c.rng);
    }
    a.host = c.rng.chance (1, 10) ? sv{} : c.rng.pick (hosts);
    if (m & 8) {
      a.port = c.rng.chance (1, 8) ? sv{} : sv{"80"};
    }
  }
  p.path.absolute = (m & 16) != 0;
  if (m & 32) {
    for (u64 n = c.rng.below (5); n > 0; --n) {
      p.path.segments.push_back (pick (c.rng));
    }
  }
  if (m & 64) {
    p.query = pick (c.rng);
  }
  if (m & 128) {
    p.fragment = pick (c.rng);
  }
  check (c, p);
}
// exactly one segment (or two) needing work, at every position of every length
void positions (vf::Case& c) {
  u64 const n = c.idx % 81;
  u64 const pos = c.idx / 81 % 81;
  u64 const kind = c.idx / 6561;
  if (pos > n) {
    return;
  }
  uri::parts p;
  p.path.absolute = true;
  for (u64 i = 0; i < n; ++i) {
    p.path.segments.push_back (kind == 3 ? sv{"%41"} : sv{"a"});
  }
  if (pos < n) {
    p.path.segments[pos] = kind == 0 ? sv{"x y"} : kind == 1 ? sv{"%25"} : kind == 2 ? sv{} : sv{"plain"};
    if (kind == 2 && pos + 1 < n) {
      p.path.segments[pos + 1] = "?%41";  // follows a segment that does not count
    }
  }
  if (c.rng.chance (1, 2)) {
    p.ensure_authority ().host = c.rng.pick (hosts);
  }
  if (c.rng.chance (1, 3)) {
    p.query = pick (c.rng);
  }
  check (c, p);
}
void many (vf::Case& c) {
  uri::parts p;
  p.path.absolute = c.rng.chance (1, 2);
  for (u64 n = c.rng.range (20, 80); n > 0; --n) {
    p.path.segments.push_back (pick (c.rng));
  }
  if (c.rng.chance (1, 2)) {
    p.ensure_authority ().host = c.rng.pick (hosts);
    if (c.rng.chance (1, 2)) {
      p.authority->userinfo = pick (c.rng);
    }
  }
  if (c.rng.chance (1, 2)) {
    p.fragment = pick (c.rng);
  }
  check (c, p);
}
void bytes (vf::Case& c) {
  // any byte in any field
  gp::Owned o;
  bool const alias = c.rng.chance (1, 4);
  auto text = [&] { return alias && !o.held.empty () && c.rng.chance (1, 2) ? o.shared (c.rng) : o.hold (c.rng.chance (1, 3) ? gen::bytes (c.rng, c.rng.below (12)) : c.rng.chance (1, 2) ? puny::utf8 (gpu::text (c.rng, 6, false, "ab%41/?#")) : gen::word (c.rng, 0, ":@/?")); };
  o.p.scheme = "s";
  if (c.rng.chance (2, 3)) {
    auto& a = o.p.ensure_authority ();
    if (c.rng.chance (1, 2)) {
      a.userinfo = text ();
    }
    a.host = c.rng.chance (1, 2) ? o.hold (gen::host (c.rng)) : text ();
    if (c.rng.chance (1, 2)) {
      a.port = o.hold (gen::port (c.rng));
    }
  }
  o.p.path.absolute = c.rng.chance (1, 2);
  for (u64 n = gen::nsegs (c.rng); n > 0; --n) {
    o.p.path.segments.push_back (text ());
  }
  if (c.rng.chance (1, 2)) {
    o.p.query = text ();
  }
  if (c.rng.chance (1, 2)) {
    o.p.fragment = text ();
  }
  check (c, o.p);
}
void parsed (vf::Case& c) {
  auto const t = gen::reference (c.rng);
  if (auto const p = uri::split_reference (t)) {
    check (c, *p);
  }
}
void single_bytes (vf::Case& c) {
  std::string const b (1, static_cast<char> (c.idx % 256));
  uri::parts p;
  sv const v = b;
  switch (c.idx / 256) {
  case 0: p.ensure_authority ().userinfo = v; break;
  case 1: p.path.segments = {v, "x", v}; break;
  case 2: p.query = v; break;
  case 3: p.fragment = v; break;
  case 4: p.ensure_authority ().host = v; break;
  default:
    p.ensure_authority ().userinfo = v;
    p.authority->host = v;
    p.path.segments = {v};
    p.query = v;
    p.fragment = v;
  }
  check (c, p);
}

}  // namespace

// counts at which a counter of 8, 10, 12 or 16 bits comes round again; few segments need work
void very_many (vf::Case& c) {
  static constexpr u64 sizes[] = {256, 256, 256, 512, 512, 1024, 4096, 65536};
  u64 const n = c.rng.pick (sizes) + c.rng.below (40) - 4;
  static constexpr sv plain[] = {"a", "", "b-c", "x.y"};
  uri::parts p;
  p.path.absolute = c.rng.chance (3, 4);
  p.path.segments.reserve (n);
  for (u64 i = 0; i < n; ++i) {
    p.path.segments.push_back (c.rng.pick (plain));
  }
  for (u64 k = c.rng.range (1, 6); k > 0; --k) {
    u64 const at = c.rng.chance (1, 2) ? c.rng.below (n) : c.rng.chance (1, 2) ? c.rng.below (30) : n - 1 - c.rng.below (30);
    p.path.segments[at] = pick (c.rng);
  }
  if (c.rng.chance (1, 2)) {
    p.ensure_authority ().host = c.rng.pick (hosts);
  }
  if (c.rng.chance (1, 2)) {
    p.query = pick (c.rng);
  }
  c.tally (n < 300 ? "many:256" : n < 600 ? "many:512" : n < 60000 ? "many:1024-4096" : "many:65536");
  check (c, p);
}
// one field far longer than the others
void long_field (vf::Case& c) {
  static constexpr u64 sizes[] = {250, 506, 1018, 4090, 65530};
  u64 const n = c.rng.pick (sizes) + c.rng.below (12);
  std::string text;
  text.reserve (n + 16);
  bool const dense = c.rng.chance (1, 2);
  while (text.size () < n) {
    if (dense || c.rng.chance (1, 64)) {
      text += pick (c.rng);
    }
    text += static_cast<char> ('a' + c.rng.below (26));
  }
  uri::parts p;
  p.scheme = "s";
  p.path.absolute = true;
  p.path.segments = {"a b", "c"};
  p.ensure_authority ().host = "h";
  switch (c.rng.below (5)) {
  case 0: p.query = text; break;
  case 1: p.fragment = text; break;
  case 2: p.authority->userinfo = text; break;
  case 3: p.path.segments[1] = text; break;
  default: {
    // many short labels, some beyond ASCII
    text.clear ();
    for (u64 k = n / 8; k > 0; --k) {
      text += c.rng.chance (1, 40) ? "\xC3\xBC.x" : "label.a";
      text += k == 1 ? "" : ".";
    }
    p.authority->host = text;
  }
  }
  c.tally (n < 300 ? "long:256" : n < 600 ? "long:512" : n < 5000 ? "long:1024-4096" : "long:65536");
  check (c, p);
}
int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"subsets", 256 * 400, 256 * 8000, subsets},
              {"every-byte-every-field", 6 * 256, 6 * 256, single_bytes},
              {"positions", 4 * 6561, 4 * 6561 * 4, [] (vf::Case& c) {
                 auto const i = c.idx;
                 c.idx %= 4 * 6561;
                 positions (c);
                 c.idx = i;
               }},
              {"many-segments", 20000, 1000000, many},
              {"very-many-segments", 200, 8000, very_many},
              {"long-field", 200, 8000, long_field},
              {"bytes", 150000, 6000000, bytes},
              {"parsed", 100000, 4000000, parsed}};
  return r.main (argc, argv);
}
