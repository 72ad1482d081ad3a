// C24: equality is an equivalence that agrees with the texts.
#include "corpus_uri.hpp"
#include "gen_parts.hpp"
#include "oracle_uri.hpp"
#include "parts_common.hpp"

using pc::sv;
using vf::u64;

namespace {

enum class Eq { no, yes, either };

Eq path_eq (struct uri::parts::path const& a, struct uri::parts::path const& b) {
  if (a.segments.size () != b.segments.size ()) {
    return Eq::no;
  }
  for (std::size_t i = 0; i < a.segments.size (); ++i) {
    if (std::string{a.segments[i]} != std::string{b.segments[i]}) {
      return Eq::no;
    }
  }
  if (a.absolute != b.absolute) {
    return a.segments.empty () ? Eq::either : Eq::no;  // no text: the flag may or may not count
  }
  return Eq::yes;
}
bool auth_eq (struct uri::parts::authority const& a, struct uri::parts::authority const& b) {
  return pc::own (a.userinfo) == pc::own (b.userinfo) && std::string{a.host} == std::string{b.host} && pc::own (a.port) == pc::own (b.port);
}
Eq parts_eq (uri::parts const& a, uri::parts const& b) {
  if (pc::own (a.scheme) != pc::own (b.scheme) || pc::own (a.query) != pc::own (b.query) ||
      pc::own (a.fragment) != pc::own (b.fragment) || a.authority.has_value () != b.authority.has_value ()) {
    return Eq::no;
  }
  if (a.authority) {
    if (!auth_eq (*a.authority, *b.authority)) {
      return Eq::no;
    }
    auto x = a.path, y = b.path;
    x.absolute = y.absolute = true;
    return path_eq (x, y);
  }
  return path_eq (a.path, b.path);
}

template <typename T> bool ask (vf::Case& c, char const* what, T const& a, T const& b, Eq want, std::string const& desc) {
  bool const ab = a == b, ba = b == a, nab = a != b, nba = b != a;
  if (ab != ba || nab != nba) {
    c.fail ("symmetry", std::string{what} + " equality is not symmetric: " + desc);
  }
  if (ab == nab) {
    c.fail ("negation", std::string{what} + " inequality is not the negation of equality: " + desc);
  }
  if (want != Eq::either && ab != (want == Eq::yes)) {
    c.fail (std::string{what} + (ab ? "-equal" : "-unequal"),
            std::string{what} + (ab ? "s compare equal but differ: " : "s compare unequal but are the same: ") + desc);
  }
  return ab;
}

bool pair (vf::Case& c, uri::parts const& a, uri::parts const& b) {
  auto const desc = pc::show (a) + " and " + pc::show (b);
  c.note (desc);
  auto const want = parts_eq (a, b);
  bool const eq = ask (c, "parts", a, b, want, desc);
  ask (c, "path", a.path, b.path, path_eq (a.path, b.path), desc);
  if (a.authority && b.authority) {
    ask (c, "authority", *a.authority, *b.authority, auth_eq (*a.authority, *b.authority) ? Eq::yes : Eq::no, desc);
  }
  if (eq) {
    c.tally ("equal");
    auto const ta = uri::compose (a), tb = uri::compose (b);
    if (ta != tb) {
      c.fail ("equal-composition", "equal components compose differently: " + desc + ": " + vf::esc (ta) + " and " + vf::esc (tb));
    }
    if (a.authority && a.path.absolute != b.path.absolute) {
      c.tally ("flag-ignored");
    }
  } else {
    c.tally (want == Eq::either ? "either" : "unequal");
  }
  return eq;
}

// Two neighbouring segments whose joined text stays the same while the boundary between them moves.
void regroup (vf::Case& c, gp::Owned& o) {
  auto& v = o.p.path.segments;
  if (v.size () < 2) {
    return;
  }
  std::size_t const k = c.rng.below (v.size () - 1);
  auto const text = std::string{v[k]} + "/" + std::string{v[k + 1]};
  std::vector<std::size_t> cuts;
  for (std::size_t j = 0; j < text.size (); ++j) {
    if (text[j] == '/' && j != v[k].size ()) {
      cuts.push_back (j);
    }
  }
  if (cuts.empty ()) {
    return;
  }
  auto const at = cuts[c.rng.below (cuts.size ())];
  v[k] = o.hold (text.substr (0, at));
  v[k + 1] = o.hold (text.substr (at + 1));
  c.tally ("regrouped");
}
// The same composed text with a delimiter inside one field instead of between two.
void shift_field (vf::Case& c, gp::Owned& o) {
  auto& p = o.p;
  switch (c.rng.below (4)) {
  case 0:
    if (p.fragment) {
      p.query = o.hold (std::string{p.query.value_or (sv{})} + "#" + std::string{*p.fragment});
      p.fragment.reset ();
    }
    break;
  case 1:
    if (p.query && !p.path.segments.empty ()) {
      p.path.segments.back () = o.hold (std::string{p.path.segments.back ()} + "?" + std::string{*p.query});
      p.query.reset ();
    }
    break;
  case 2:
    if (p.authority && p.authority->port) {
      p.authority->host = o.hold (std::string{p.authority->host} + ":" + std::string{*p.authority->port});
      p.authority->port.reset ();
    }
    break;
  default:
    if (p.authority && p.authority->userinfo) {
      p.authority->host = o.hold (std::string{*p.authority->userinfo} + "@" + std::string{p.authority->host});
      p.authority->userinfo.reset ();
    }
    break;
  }
  c.tally ("shifted");
}

// Change one thing.
void alter (vf::Case& c, gp::Owned& o) {
  auto& r = c.rng;
  auto opt = [&] (std::optional<sv>& s, gp::Field f) {
    switch (r.below (4)) {
    case 0:
      if (s) {
        s.reset ();
      } else {
        s = o.hold (sv{"x", 0});
      }
      break;
    case 1: s = r.chance (1, 2) ? sv{} : o.hold (sv{"x", 0}); break;
    case 2:
      if (s && !s->empty ()) {  // one byte, or its case
        std::string t{*s};
        auto& ch = t[r.below (t.size ())];
        ch = static_cast<char> (r.chance (1, 2) ? ch ^ 0x20 : ch + 1);
        s = o.hold (t);
        break;
      }
      [[fallthrough]];
    default: s = o.hold (gp::legal (r, f)); break;
    }
  };
  std::optional<sv> tmp;
  switch (r.below (9)) {
  case 0: opt (o.p.scheme, gp::Field::scheme); break;
  case 1: opt (o.p.query, gp::Field::query); break;
  case 2: opt (o.p.fragment, gp::Field::fragment); break;
  case 3: opt (o.p.ensure_authority ().userinfo, gp::Field::userinfo); break;
  case 4: opt (o.p.ensure_authority ().port, gp::Field::port); break;
  case 5:
    tmp = o.p.ensure_authority ().host;
    opt (tmp, gp::Field::host);
    o.p.authority->host = tmp.value_or (sv{});
    break;
  case 6: o.p.path.absolute = !o.p.path.absolute; break;
  case 7:
    if (!o.p.path.segments.empty ()) {
      auto& seg = o.p.path.segments[r.below (o.p.path.segments.size ())];
      tmp = seg;
      opt (tmp, gp::Field::segment);
      seg = tmp.value_or (sv{});
      break;
    }
    [[fallthrough]];
  default:
    switch (r.below (7)) {
    case 0: o.p.authority.reset (); break;
    case 5: regroup (c, o); break;
    case 6: shift_field (c, o); break;
    case 1: o.p.path.segments.insert (o.p.path.segments.begin (), sv{}); break;
    case 2: o.p.path.segments.push_back (o.hold (sv{"x", 0})); break;
    case 3:
      if (!o.p.path.segments.empty ()) {
        o.p.path.segments.pop_back ();
      }
      break;
    default:  // the same text divided differently
      if (o.p.path.segments.size () > 1) {
        auto const joined = std::string{o.p.path.segments[0]} + "/" + std::string{o.p.path.segments[1]};
        o.p.path.segments.erase (o.p.path.segments.begin ());
        o.p.path.segments[0] = o.hold (joined);
      }
      break;
    }
  }
}

// Long lists of segments which differ at one place at most.
void long_lists (vf::Case& c) {
  static constexpr u64 at[] = {16, 32, 64, 128, 255, 256, 257, 512, 1000, 4096, 32768, 65535, 65536, 65537};
  u64 const n = at[c.idx % std::size (at)] + c.rng.below (3);
  static std::string const text = "abcdefgh";
  std::vector<sv> v;
  for (u64 k = 0; k < n; ++k) {
    v.push_back (sv{text}.substr (c.rng.below (4), c.rng.below (4)));
  }
  uri::parts a;
  a.scheme = "s";
  a.path.absolute = c.rng.chance (1, 2);
  a.path.segments = v;
  auto b = a;
  u64 const k = c.rng.chance (1, 3) ? n - 1 : c.rng.chance (1, 3) ? 0 : c.rng.below (n);
  Eq want = Eq::yes;
  switch (c.rng.below (4)) {
  case 0:
    b.path.segments[k] = "other";
    want = Eq::no;
    break;
  case 1:
    b.path.segments.resize (n - (n > 65536 ? 65536 : n > 256 ? 256 : 1));
    want = Eq::no;
    break;
  case 2: b.path.segments[k] = std::string_view{a.path.segments[k]}; break;
  default:
    b.path.segments.push_back (sv{});
    want = Eq::no;
    break;
  }
  auto const desc = "paths of " + std::to_string (n) + " segments";
  c.note (desc);
  ask (c, "path", a.path, b.path, want, desc);
  ask (c, "parts", a, b, want, desc);
  c.tally (want == Eq::yes ? "long-equal" : "long-unequal");
  c.distinct (vf::hash_str (desc) ^ c.idx);
}

void tuples (vf::Case& c) {
  auto a = gp::tuple (c.rng, static_cast<unsigned> (c.rng.below (4)), c.rng.chance (1, 20) ? 60 : 4);
  if (c.rng.chance (1, 6) && a.p.path.segments.size () > 1) {  // slashes inside segments, as decoding produces them
    for (auto& s : a.p.path.segments) {
      if (c.rng.chance (1, 2)) {
        std::string t{s};
        t.insert (c.rng.below (t.size () + 1), "/");
        s = a.hold (t);
      }
    }
  }
  if (!pair (c, a.p, a.p)) {
    c.fail ("reflexive", "not equal to itself: " + pc::show (a.p));
  }
  auto b = a.clone ();
  bool const ab0 = pair (c, a.p, b.p);
  if (!ab0) {
    c.fail ("storage", "a copy stored elsewhere is not equal: " + pc::show (a.p));
  }
  uri::parts const plain = a.p;
  if (!(plain == a.p)) {
    c.fail ("copy", "a copy is not equal: " + pc::show (a.p));
  }
  if (c.rng.chance (2, 3)) {
    alter (c, b);
  }
  auto d = b.clone ();
  if (c.rng.chance (1, 2)) {
    alter (c, d);
  }
  bool const ab = pair (c, a.p, b.p), bd = pair (c, b.p, d.p), ad = pair (c, a.p, d.p);
  if ((ab && bd && !ad) || (ab && ad && !bd) || (ad && bd && !ab)) {
    c.fail ("transitive", "equality is not transitive: " + pc::show (a.p) + ", " + pc::show (b.p) + ", " + pc::show (d.p));
  }
  if (ab && bd) {
    c.tally ("chains");
  }
  c.distinct (vf::hash_str (pc::show (a.p)) ^ (3 * vf::hash_str (pc::show (b.p))));
  c.sample ([&] { return pc::show (a.p) + (ab ? " == " : " != ") + pc::show (b.p); });
}

// Every pair of small component sets: presence/emptiness of each field, few segments.
constexpr u64 small_n = 3 * 10 * 2 * 5 * 3 * 2;
uri::parts small (u64 i) {
  auto take = [&i] (u64 n) {
    u64 const r = i % n;
    i /= n;
    return r;
  };
  static constexpr std::optional<sv> vals[] = {std::nullopt, sv{""}, sv{"a"}};
  uri::parts p;
  p.scheme = vals[take (3)];
  if (u64 const a = take (10); a != 0) {
    auto& auth = p.ensure_authority ();
    auth.host = (a - 1) % 3 == 0 ? sv{"a"} : sv{};
    auth.userinfo = vals[(a - 1) % 3];
    auth.port = vals[(a - 1) / 3];
  }
  p.path.absolute = take (2) != 0;
  switch (take (5)) {
  case 1: p.path.segments = {""}; break;
  case 2: p.path.segments = {"a"}; break;
  case 3: p.path.segments = {"", "a"}; break;
  case 4: p.path.segments = {"a", ""}; break;
  default: break;
  }
  p.query = vals[take (3)];
  p.fragment = vals[take (2)];
  return p;
}
void small_pairs (vf::Case& c) {
  u64 const stride = c.thorough ? 1 : 7;  // coprime to the table size: a different seventh for each left operand
  auto const a = small (c.idx);
  for (u64 j = c.idx % stride; j < small_n; j += stride) {
    pair (c, a, small (j));
  }
  pair (c, a, a);
}

void parsed_pair (vf::Case& c, std::string const& t, std::string const& u) {
  corpus::Exact const e{t}, f{u};
  auto const x = uri::split_reference (e.view ()), y = uri::split_reference (f.view ());
  if (!x || !y) {
    c.tally ("unparsed");
    return;
  }
  bool const eq = pair (c, *x, *y);
  if (eq != (t == u)) {
    c.fail (eq ? "parsed-equal" : "parsed-unequal", "references " + vf::esc (t) + " and " + vf::esc (u) + (eq ? " compare equal" : " compare unequal"));
  }
  c.tally (t == u ? "parsed:same" : "parsed:different");
  c.distinct (vf::hash_str (t) ^ (5 * vf::hash_str (u)));
}
void parsed (vf::Case& c) {
  auto t = gen::reference (c.rng);
  auto u = t;
  switch (c.rng.below (4)) {
  case 0: break;
  case 1: u = gen::reference (c.rng); break;
  case 2:  // insert a delimiter that adds an empty component or segment
    u.insert (c.rng.below (u.size () + 1), c.rng.chance (1, 4) ? "//" : std::string (1, c.rng.pick_char ("/?#:@.")));
    break;
  default: gen::mutate (c.rng, u); break;
  }
  parsed_pair (c, t, u);
}
void parsed_small (vf::Case& c) {
  u64 const n = gen::count_strings (6, c.thorough ? 4 : 3);
  auto const t = gen::nth_string (c.idx, corpus::a_struct);
  for (u64 j = 0; j < n; ++j) {
    parsed_pair (c, t, gen::nth_string (j, corpus::a_struct));
  }
}

// texts that other rules than equality of text would call the same: default ports, letter case, dots, escapes
void realistic (vf::Case& c) {
  namespace real = gen::real;
  std::string part[6];
  auto const draw = [&] (unsigned k) -> std::string {
    switch (k) {
    case 0: return std::string{c.rng.pick (real::schemes)};
    case 1: return c.rng.chance (1, 3) ? std::string{} : std::string{c.rng.pick (real::hosts)};
    case 2: return c.rng.chance (1, 3) ? std::string{} : ":" + std::string{c.rng.pick (real::ports)};
    case 3: return std::string{c.rng.pick (real::paths)};
    case 4: return c.rng.chance (1, 2) ? std::string{} : "?" + std::string{c.rng.pick (real::queries)};
    default: return c.rng.chance (1, 2) ? std::string{} : "#" + std::string{c.rng.pick (real::fragments)};
    }
  };
  auto const text = [&part] { return part[0] + "://" + part[1] + part[2] + part[3] + part[4] + part[5]; };
  for (unsigned k = 0; k < 6; ++k) {
    part[k] = draw (k);
  }
  auto const t = text ();
  auto const k = static_cast<unsigned> (c.rng.below (6));
  part[k] = draw (k);
  c.note (t);
  parsed_pair (c, t, text ());
}

}  // namespace

void check_text (vf::Case&, sv) {}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"tuples", 400000, 12000000, tuples},
              {"long-lists", 1400, 20000, long_lists},
              {"small-pairs", small_n, small_n, small_pairs},
              {"parsed", 400000, 12000000, parsed},
              {"realistic", 200000, 6000000, realistic},
              {"parsed-small", gen::count_strings (6, 3), gen::count_strings (6, 4), parsed_small}};
  return r.main (argc, argv);
}
