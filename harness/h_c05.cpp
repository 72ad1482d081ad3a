// C05: reference resolution against RFC 3986 5.2.
#include <memory>

#include "gen_parts.hpp"

using pc::sv;
using vf::Case;
using vf::u64;

namespace {

using Exact = vf::Block;

bool matches (uri::parts const& got, orc::Text const& want, std::optional<std::string> const& loose) {
  auto const t = pc::texts (got);
  return t.scheme == want.scheme && t.authority == want.authority && (t.path == want.path || (loose && t.path == *loose)) &&
         t.query == want.query && t.fragment == want.fragment;
}

void one (Case& c, sv base, sv ref, bool strict) {
  auto ctx = [&] { return "join (" + vf::esc (base) + ", " + vf::esc (ref) + (strict ? ", strict" : ", non-strict") + "): "; };
  auto const ob = orc::parse (base, true);
  auto const orf = orc::parse (ref, false);
  std::string const base_copy{base}, ref_copy{ref};
  auto const got = uri::join (base, ref, strict);
  if (base != base_copy || ref != ref_copy) {
    c.fail ("modified-text", ctx () + "an input string was modified");
  }
  if (got.has_value () != (ob && orf)) {
    c.fail ("presence", ctx () + (got ? "gives a result although an input is invalid" : "gives no result"));
    return;
  }
  if (!got) {
    c.tally (!ob ? "no-result:base" : "no-result:reference");
    return;
  }
  std::optional<std::string> loose;
  auto const want = orc::resolve (*ob, *orf, strict, &loose);
  if (!matches (*got, want, loose)) {
    c.fail ("target", ctx () + "gives " + pc::show (*got) + " = " + vf::esc (pc::compose (*got)) + ", want " + vf::esc (want.compose ()));
  }
  // the path is the target's path by itself, not only as composed after an authority
  if (auto const own = pc::path_text (got->path); own != want.path && !(loose && own == *loose)) {
    c.fail ("path", ctx () + "the path of the target is " + vf::esc (own) + ", want " + vf::esc (want.path));
  }
  // sub-components of the authority come from the same side, unchanged
  if (got->authority && want.authority) {
    auto const& side = !orf->has_auth ? *ob : *orf;
    if (got->authority->userinfo != side.userinfo || got->authority->host != side.host || got->authority->port != side.port) {
      c.fail ("authority", ctx () + "authority sub-components differ: " + pc::show (*got));
    }
  }
  if (auto const text = uri::compose (*got); text != pc::compose (*got)) {
    c.fail ("compose", ctx () + "composes as " + vf::esc (text) + ", components are " + pc::show (*got));
  }
  // the overload on components gives the same and leaves its inputs alone
  auto const bp = uri::split (base);
  auto const rp = uri::split_reference (ref);
  if (bp && rp) {
    uri::parts const b0 = *bp, r0 = *rp;
    auto const j = uri::join (*bp, *rp, strict);
    if (!pc::same_parts (j, *got)) {
      c.fail ("overloads", ctx () + "joining the components gives " + pc::show (j) + ", joining the strings gives " + pc::show (*got));
    }
    if (!pc::same_parts (b0, *bp) || !pc::same_parts (r0, *rp)) {
      c.fail ("modified-parts", ctx () + "the input components were modified");
    }
    if (strict) {
      if (!pc::same_parts (uri::join (*bp, *rp), j)) {
        c.fail ("default", ctx () + "the default mode is not strict");
      }
      auto const d = uri::join (base, ref);
      if (!d || !pc::same_parts (*d, *got)) {
        c.fail ("default", ctx () + "the default mode is not strict");
      }
    }
    if (c.idx % 8 == 0) {
      // the same object as base and reference, and the result assigned over an input
      auto const self = uri::join (*bp, *bp, strict);
      std::optional<std::string> l2;
      auto const w2 = orc::resolve (*ob, *ob, strict, &l2);
      if (!matches (self, w2, l2)) {
        c.fail ("alias", "join (x, x) of " + vf::esc (base) + " gives " + pc::show (self) + ", want " + vf::esc (w2.compose ()));
      }
      auto over = *bp;
      over = uri::join (over, *rp, strict);
      if (!pc::same_parts (over, *got)) {
        c.fail ("assign", ctx () + "assigning the result to the base gives " + pc::show (over));
      }
    }
  }
  c.tally (orf->scheme ? (*orf->scheme == *ob->scheme ? "ref:same-scheme" : "ref:scheme")
           : orf->has_auth ? "ref:authority"
           : orf->path.empty () ? "ref:empty-path"
           : orf->absolute () ? "ref:absolute-path"
                              : "ref:relative-path");
  c.tally (ob->has_auth ? (ob->path.empty () ? "base:authority,no-path" : "base:authority,path")
                        : ob->absolute () ? "base:absolute" : ob->path.empty () ? "base:no-path" : "base:rootless");
  if (loose && *loose != want.path) {
    c.tally ("either-path-accepted");
  }
  if (pc::compose (*got) != ref) {
    c.distinct (vf::hash_str (ref, vf::hash_str (base, strict ? 1 : 2)));
  }
  c.sample ([&] { return vf::esc (base, 50) + " + " + vf::esc (ref, 50) + " -> " + vf::esc (pc::compose (*got), 80); });
}

void both (Case& c, sv base, sv ref) {
  c.note (std::string{base} + " + " + std::string{ref});
  Exact const b{base}, r{ref};
  one (c, b.view (), r.view (), true);
  one (c, b.view (), r.view (), false);
}

constexpr sv bases[] = {"s:", "s://h", "s://", "s://h/", "s:/", "s:a", "s:a/b", "s:/a", "s:/a/b/c", "s://h/a", "s://h/a/b/c",
                        "s://h//", "s://h//a//b", "s://u@h:1/a/b/?q#f", "s:a?q", "s:?q", "s:#f", "s://h?q", "s://h?#", "s:a//b",
                        "s://h/a/../b/./c", "s:/..", "s:..", "s:../a", "s:a/..", "s:/.//a", "s://@:/x/y", "s:a/b/c/d/e", "s:/a//", "s:a:b"};
constexpr sv tok[] = {".", "..", "/", "a", "?", "#", "s:", "t:"};

std::string nth_tokens (u64 idx) {
  u64 n = 1, len = 0;
  while (idx >= n) {
    idx -= n;
    n *= std::size (tok);
    ++len;
  }
  std::string s;
  for (u64 i = 0; i < len; ++i) {
    s += tok[idx % std::size (tok)];
    idx /= std::size (tok);
  }
  return s;
}

void enumerate (Case& c) { both (c, bases[c.idx % std::size (bases)], nth_tokens (c.idx / std::size (bases))); }
void enum_base (Case& c) {
  static constexpr sv refs[] = {"", "x", "./x", "../x", "../../x", ".", "..", "/x", "//g", "?y", "#z", "x/./../y", "x/", "../..//x",
                                "s:x", "s:../x", "x?y#z", "/./../x", "...", "./", "../"};
  static constexpr sv ctx[] = {"s:", "s:/", "s://h/", "s://u@h:1/"};
  u64 const i = c.idx / std::size (refs);
  auto const path = gen::nth_string (i / std::size (ctx), "a./");
  both (c, std::string{ctx[i % std::size (ctx)]} + path + (c.rng.chance (1, 4) ? "?q" : ""), refs[c.idx % std::size (refs)]);
}
void grammar (Case& c) {
  auto const base = gen::uri (c.rng);
  std::string ref = gen::reference (c.rng);
  if (c.rng.chance (1, 4)) {  // same scheme as the base, so that non-strict mode matters
    ref = base.substr (0, base.find (':') + 1) + gen::relative (c.rng);
    if (c.rng.chance (1, 3)) {  // same but for case, or almost the same
      auto const at = c.rng.below (base.find (':'));
      ref[at] = c.rng.chance (1, 2) ? static_cast<char> (ref[at] ^ 0x20) : c.rng.pick_char ("sSx+");
    }
  }
  both (c, base, ref);
}
std::string dotty (vf::Rng& r) {
  static constexpr sv w[] = {".", "..", "..", "", "a", "b", "...", "c;d", "%2e", "e:f"};
  std::string s;
  for (u64 n = r.chance (1, 20) ? r.range (9, 70) : r.below (9); n > 0; --n) {
    s += r.pick (w);
    if (n > 1 || r.chance (1, 3)) {
      s += "/";
    }
  }
  return s;
}
void paths (Case& c) {
  static constexpr sv pre[] = {"s:", "s:/", "s://h/", "s://h", "http://a@b:1/"};
  auto base = std::string{c.rng.pick (pre)} + dotty (c.rng) + (c.rng.chance (1, 5) ? "?q" : "") + (c.rng.chance (1, 5) ? "#f" : "");
  static constexpr sv rpre[] = {"", "", "", "", "/", "//g/", "s:", "s:/", "t:", "t:/", "s://g/"};
  auto const ref = std::string{c.rng.pick (rpre)} + dotty (c.rng) + (c.rng.chance (1, 5) ? "?" : "") + (c.rng.chance (1, 5) ? "#" : "");
  both (c, base, ref);
}
// numbers and lengths of segments at which a counter of 8, 10, 12 or 16 bits comes round again
void large (Case& c) {
  static constexpr u64 sizes[] = {256, 256, 512, 1024, 4096, 65536};
  auto const path = [&c] (u64 n) {
    std::string s;
    u64 const kind = c.rng.below (5);
    for (u64 k = 0; k < n; ++k) {
      s += k == 0 ? "" : "/";
      switch (kind) {
      case 0: s += "a"; break;
      case 1: s += c.rng.chance (1, 2) ? "a" : ".."; break;
      case 2: s += c.rng.chance (1, 3) ? "." : c.rng.chance (1, 2) ? "" : "b"; break;
      case 3: s += k < n / 2 ? "c" : ".."; break;
      default: s += c.rng.chance (1, 200) ? ".." : c.rng.chance (1, 200) ? "." : "de"; break;
      }
    }
    return s;
  };
  u64 const n = c.rng.pick (sizes);
  u64 const m = n + c.rng.below (9) - 4;
  static constexpr sv pre[] = {"s:/", "s://h/", "s:x/"};
  static constexpr sv rpre[] = {"", "../", "./", "/", "s:", "//g/"};
  std::string base{c.rng.pick (pre)};
  std::string ref{c.rng.pick (rpre)};
  switch (c.rng.below (4)) {
  case 0:
    base += path (m) + "?q";
    ref += "g/../k?x";
    break;
  case 1:
    base += "a/b";
    ref += path (m);
    break;
  case 2:
    base += path (m);
    ref += path (n < 60000 ? n : 300);
    break;
  default:
    base += std::string (m, 'a') + "/" + std::string (m, 'b');
    ref += std::string (n, 'c') + (c.rng.chance (1, 2) ? "/../" : "/") + std::string (m, 'd') + "?" + std::string (m, 'e');
    break;
  }
  c.tally (n < 300 ? "large:256" : n < 600 ? "large:512" : n < 5000 ? "large:1024-4096" : "large:65536");
  both (c, base, ref);
}
void mutated (Case& c) {
  auto base = gen::uri (c.rng);
  auto ref = gen::reference (c.rng);
  gen::mutate (c.rng, c.rng.chance (1, 2) ? base : ref);
  both (c, base, ref);
}
void chain (Case& c) {
  // resolve a series of references, each against the previous target
  std::string base = c.rng.chance (1, 2) ? "s://h/a/b/c" : gen::uri (c.rng);
  for (int k = 0; k < 6; ++k) {
    auto const ref = c.rng.chance (1, 2) ? dotty (c.rng) : gen::relative (c.rng);
    both (c, base, ref);
    auto const t = uri::join (sv{base}, sv{ref});
    if (!t) {
      break;
    }
    base = uri::compose (*t);
  }
}
// base and reference are views of the same memory, overlapping in any way
void overlapping (Case& c) {
  auto const t = c.rng.chance (1, 2) ? gen::uri (c.rng) : "s://h/" + dotty (c.rng);
  Exact const e{t};
  sv const all = e.view ();
  auto const cut = [&] {
    auto const a = c.rng.below (all.size () + 1);
    auto const n = c.rng.below (all.size () - a + 1);
    return c.rng.chance (1, 2) ? all.substr (a) : all.substr (a, n);
  };
  sv const base = c.rng.chance (1, 2) ? all : all.substr (0, c.rng.below (all.size () + 1));
  sv const ref = c.rng.chance (1, 8) ? base : cut ();
  c.note (std::string{base} + " + " + std::string{ref});
  one (c, base, ref, true);
  one (c, base, ref, false);
  c.tally ("overlapping");
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {
    {"enumerate", std::size (bases) * gen::count_strings (8, 4), std::size (bases) * gen::count_strings (8, 6), enumerate},
    {"enum-base", 21 * 4 * gen::count_strings (3, 7), 21 * 4 * gen::count_strings (3, 10), enum_base},
    {"grammar", 150000, 8000000, grammar},
    {"paths", 250000, 10000000, paths},
    {"large", 500, 20000, large},
    {"mutated", 100000, 4000000, mutated},
    {"overlapping", 60000, 3000000, overlapping},
    {"chain", 20000, 1000000, chain},
  };
  return r.main (argc, argv);
}
