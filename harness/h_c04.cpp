// C04: valid() iff a scheme is present, every component matches its production and the
// composed text parses back to the same component texts.
#include "gen_parts.hpp"

using gp::Owned;
using pc::sv;
using vf::Case;
using vf::u64;

namespace {

bool path_ok (struct uri::parts::path const& p) {
  for (auto const s : p.segments) {
    if (!orc::segment_ok (s)) {
      return false;
    }
  }
  return true;
}
bool auth_ok (struct uri::parts::authority const& a) {
  return (!a.userinfo || orc::userinfo_ok (*a.userinfo)) && orc::host_ok (a.host) && (!a.port || orc::port_ok (*a.port));
}

bool same_texts (orc::Parts const& o, uri::parts const& p) {
  if (o.scheme != p.scheme || o.has_auth != p.authority.has_value () || o.query != p.query || o.fragment != p.fragment ||
      o.path != pc::path_in_text (p)) {
    return false;
  }
  return !o.has_auth || (o.userinfo == p.authority->userinfo && o.host == p.authority->host && o.port == p.authority->port);
}

void examine (Case& c, uri::parts const& p) {
  c.note (pc::compose (p));
  bool const productions = p.scheme && orc::scheme_ok (*p.scheme) && (!p.authority || auth_ok (*p.authority)) && path_ok (p.path) &&
                           (!p.query || orc::query_ok (*p.query)) && (!p.fragment || orc::query_ok (*p.fragment));
  auto const text = pc::compose (p);
  auto const back = orc::parse (text, true);
  bool const want = productions && back && same_texts (*back, p);
  bool const got = p.valid ();
  if (got != want) {
    c.fail (want ? "rejects" : "accepts", pc::show (p) + (want ? " is valid but rejected" : " is not valid but accepted") +
                                            "; text " + vf::esc (text));
  }
  if (p.path.valid () != path_ok (p.path)) {
    c.fail ("path", "path::valid of " + pc::show (p) + " is " + (p.path.valid () ? "true" : "false"));
  }
  if (p.authority && p.authority->valid () != auth_ok (*p.authority)) {
    c.fail ("authority", "authority::valid of " + pc::show (p) + " is " + (p.authority->valid () ? "true" : "false"));
  }
  if (got) {
    // the consequence users rely on, with the library's own composer and parser
    auto const lib_text = uri::compose (p);
    auto const again = uri::split (lib_text);
    if (!again) {
      c.fail ("unparsable", pc::show (p) + " is valid but its text does not parse: " + vf::esc (lib_text));
    } else if (!pc::same (pc::texts (*again), pc::texts (p))) {
      c.fail ("changed", pc::show (p) + " is valid but its text parses as " + pc::show (*again));
    }
  }
  c.tally (want ? "valid" : productions ? "productions-ok-but-ambiguous" : "invalid");
  if (want || productions || (back && !productions)) {
    c.distinct (vf::hash_str (text, p.path.absolute ? 3 : 7));
  }
  if (back && !productions) {
    c.tally ("text-parses-but-components-differ");
  }
  c.sample ([&] { return pc::show (p) + (want ? " valid" : " invalid"); });
}

constexpr sv seg_alphabet[] = {"", "a", ".", "a:b", "/", "%4", ":"};
constexpr u64 k = std::size (seg_alphabet);
constexpr u64 lists = 1 + k + k * k + k * k * k + k * k * k * k;
constexpr u64 contexts = 4 * 5 * 2 * 2;

void enumerate (Case& c) {
  u64 i = c.idx;
  auto take = [&i] (u64 n) {
    u64 const r = i % n;
    i /= n;
    return r;
  };
  uri::parts p;
  switch (take (4)) {
  case 0: break;
  case 1: p.scheme = "s"; break;
  case 2: p.scheme = ""; break;
  default: p.scheme = "x-1+."; break;
  }
  switch (take (5)) {
  case 0:
  case 1: break;
  case 2: p.ensure_authority (); break;
  case 3: p.ensure_authority ().host = "h"; break;
  default:
    p.ensure_authority ().userinfo = "";
    p.authority->port = "";
    break;
  }
  p.path.absolute = take (2) != 0;
  if (take (2) != 0) {
    p.query = "";
  }
  u64 n = 0, size = 1;
  while (i >= size) {
    i -= size;
    size *= k;
    ++n;
  }
  for (; n > 0; --n) {
    p.path.segments.push_back (seg_alphabet[take (k)]);
  }
  examine (c, p);
}

void legal (Case& c) { examine (c, gp::tuple (c.rng, 0).p); }
void mixed (Case& c) {
  auto const o = gp::tuple (c.rng, c.rng.chance (1, 2) ? 1 : 3);
  examine (c, o.p);
}

// exactly one component carries an unusual value; everything else is legal
void one_bad (Case& c) {
  auto o = gp::tuple (c.rng, 0, 4);
  auto& p = o.p;
  if (!p.scheme || p.scheme->empty ()) {
    p.scheme = o.hold ("s");
  }
  auto const f = static_cast<gp::Field> (c.idx % 7);
  auto s = gp::legal (c.rng, f);
  u64 const at = c.rng.below (s.size () + 1);
  auto const b = static_cast<char> (c.idx / 7 % 256);
  if (c.rng.chance (1, 2) || at == s.size ()) {
    s.insert (at, 1, b);
  } else {
    s[at] = b;
  }
  auto const v = o.hold (s);
  switch (f) {
  case gp::Field::scheme: p.scheme = v; break;
  case gp::Field::userinfo: p.ensure_authority ().userinfo = v; break;
  case gp::Field::host: p.ensure_authority ().host = v; break;
  case gp::Field::port: p.ensure_authority ().port = v; break;
  case gp::Field::segment:
    if (p.path.segments.empty ()) {
      p.path.segments.push_back (v);
    } else {
      p.path.segments[c.rng.below (p.path.segments.size ())] = v;
    }
    break;
  case gp::Field::query: p.query = v; break;
  case gp::Field::fragment: p.fragment = v; break;
  }
  examine (c, p);
}

// long components and many segments, with at most one defect near either end or in the middle
void large (Case& c) {
  static constexpr u64 sizes[] = {256, 256, 512, 1024, 4096, 65536};
  u64 const n = c.rng.pick (sizes) + c.rng.below (9) - 4;
  auto o = gp::tuple (c.rng, 0, 2);
  auto& p = o.p;
  if (!p.scheme || p.scheme->empty ()) {
    p.scheme = o.hold ("s");
  }
  auto const where = [&] (u64 size) {
    return c.rng.chance (1, 3) ? c.rng.below (size) : c.rng.chance (1, 2) ? size - 1 - c.rng.below (4) : c.rng.below (4);
  };
  u64 const f = c.rng.below (8);
  std::string text (n, f == 2 ? '7' : 'a');
  if (c.rng.chance (1, 3)) {
    for (u64 k = 0; f != 2 && f != 0 && k + 3 <= n; k += 3) {
      text.replace (k, 3, "%4a");
    }
  }
  bool const bad = c.rng.chance (2, 3);
  if (bad) {
    text[where (n)] = c.rng.pick_char ("%[]\x7F\x80 ^:/@?#");
  }
  switch (f) {
  case 0: p.scheme = o.hold (text); break;
  case 1: p.ensure_authority ().userinfo = o.hold (text); break;
  case 2: p.ensure_authority ().port = o.hold (text); break;
  case 3: p.ensure_authority ().host = o.hold (text); break;
  case 4: p.path.segments.assign (1, o.hold (text)); break;
  case 5: p.query = o.hold (text); break;
  case 6: p.fragment = o.hold (text); break;
  default:
    p.path.absolute = true;
    p.path.segments.assign (n, "a");
    if (bad) {
      p.path.segments[where (n)] = c.rng.chance (1, 2) ? "b/c" : "%";
    }
  }
  c.tally (bad ? "large:defect" : "large:sound");
  examine (c, p);
}
// hosts on their own: the authority predicate against the host grammar
void hosts (Case& c) {
  static constexpr sv al = "0f:.1]v[%";
  struct uri::parts::authority a;
  std::string const s = gen::nth_string (c.idx, al);
  std::string const h = c.rng.chance (1, 2) ? "[" + s + "]" : s;
  a.host = h;
  c.note (h);
  if (a.valid () != auth_ok (a)) {
    c.fail ("host", "authority::valid of host " + vf::esc (h) + " is " + (a.valid () ? "true" : "false"));
  }
  std::string const ip6 = "[" + gen::ipv6 (c.rng) + "]";
  a.host = ip6;
  if (!a.valid ()) {
    c.fail ("host", "authority::valid rejects host " + vf::esc (ip6));
  }
  std::string m = gen::host (c.rng);
  gen::mutate (c.rng, m);
  a.host = m;
  c.note (m);
  if (a.valid () != auth_ok (a)) {
    c.fail ("host", "authority::valid of host " + vf::esc (m) + " is " + (a.valid () ? "true" : "false"));
  }
  c.distinct (vf::hash_str (m));
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {
    {"enumerate", lists * contexts, lists * contexts, enumerate}, {"legal", 300000, 10000000, legal},
    {"mixed", 600000, 20000000, mixed},                           {"one-bad", 700000, 20000000, one_bad},
    {"large", 2000, 60000, large},
    {"hosts", gen::count_strings (9, 5), gen::count_strings (9, 7), hosts},
  };
  return r.main (argc, argv);
}
