// C06: remove_dot_segments against the literal RFC 3986 5.2.4 string algorithm.
#include "gen_parts.hpp"

using pc::sv;
using vf::Case;
using vf::u64;

namespace {

void examine (Case& c, std::vector<sv> const& segs) {
  struct uri::parts::path p;
  p.absolute = true;
  p.segments = segs;
  auto const before = pc::path_text (p);
  c.note (before);
  auto const want = orc::remove_dots (before);
  p.remove_dot_segments ();
  auto const got = pc::path_text (p);
  auto ctx = [&] { return "remove_dot_segments of " + vf::esc (before); };
  if (got != want) {
    c.fail ("text", ctx () + " gives " + vf::esc (got) + ", want " + vf::esc (want));
  }
  if (!p.absolute) {
    c.fail ("absolute", ctx () + " cleared the absolute flag");
  }
  for (auto const s : p.segments) {
    if (s == "." || s == "..") {
      c.fail ("remains", ctx () + " leaves a dot segment: " + vf::esc (got));
      break;
    }
  }
  // the surviving segments are the input's own views
  std::size_t at = 0;  // they also keep their order
  for (auto const s : p.segments) {
    if (!s.empty ()) {
      while (at < segs.size () && (segs[at].data () != s.data () || segs[at].size () != s.size ())) {
        ++at;
      }
      if (at == segs.size ()) {
        c.fail ("foreign", ctx () + " yields a segment that is not one of the input's: " + vf::esc (s));
        break;
      }
    }
  }
  auto q = p;
  q.remove_dot_segments ();
  if (q.absolute != p.absolute || q.segments != p.segments) {
    c.fail ("idempotent", ctx () + " is not idempotent: " + vf::esc (pc::path_text (q)));
  }
  if (got != before) {
    c.distinct (vf::hash_str (before));
    c.tally ("changed");
  } else {
    c.tally ("unchanged");
  }
  c.run.tallies["len:" + std::to_string (std::min<std::size_t> (segs.size (), 12))] += 1;
  c.sample ([&] { return vf::esc (before, 80) + " -> " + vf::esc (got, 80); });
}

// Descents and climbs whose depth passes the limits of small counters.
void deep (Case& c) {
  static constexpr u64 at[] = {15, 31, 63, 127, 128, 255, 256, 257, 511, 512, 1024, 4096, 32767, 65535, 65536};
  u64 const n = at[c.idx % std::size (at)] + c.rng.below (3);
  std::vector<sv> v;
  auto down = [&] (u64 k) {
    for (; k > 0; --k) {
      v.push_back (c.rng.chance (1, 9) ? "" : c.rng.chance (1, 30) ? "..." : "a");
      if (c.rng.chance (1, 40)) {
        v.push_back (".");
      }
    }
  };
  auto up = [&] (u64 k) {
    for (; k > 0; --k) {
      v.push_back ("..");
    }
  };
  switch (c.rng.below (5)) {
  case 0:  // to a depth, and a little way up
    down (n);
    up (c.rng.range (1, 3));
    break;
  case 1:  // all the way up again, perhaps beyond
    down (n);
    up (n - 1 + c.rng.below (3));
    break;
  case 2:  // far above the root
    up (n);
    down (c.rng.below (3));
    break;
  case 3:
    down (n / 2);
    up (c.rng.below (n / 2));
    down (n / 2);
    up (c.rng.range (1, 4));
    break;
  default:
    for (u64 k = 0; k < n; ++k) {
      v.push_back (".");
    }
    down (c.rng.below (2));
    up (c.rng.below (3));
    break;
  }
  if (c.rng.chance (1, 2)) {
    v.push_back ("z");
  }
  c.tally ("deep");
  examine (c, v);
}

constexpr sv al[] = {"", ".", "..", "a", "..."};
constexpr u64 total (u64 maxlen) { return gen::count_strings (std::size (al), maxlen); }

void enumerate (Case& c) {
  u64 i = c.idx, n = 0, size = 1;
  while (i >= size) {
    i -= size;
    size *= std::size (al);
    ++n;
  }
  std::vector<sv> v;
  for (; n > 0; --n) {
    v.push_back (al[i % std::size (al)]);
    i /= std::size (al);
  }
  examine (c, v);
}

constexpr sv words[] = {"", ".", "..", ".", "..", "a", "bb", "...", ".a", "a.", "..a", "a..", "%2e", "%2E%2E", ".%2e", ";", "a;.", "x=..", "....", " "};
void random_list (Case& c) {
  std::vector<sv> v;
  for (u64 n = c.rng.chance (1, 20) ? c.rng.range (20, 200) : c.rng.range (1, 14); n > 0; --n) {
    v.push_back (c.rng.pick (words));
  }
  examine (c, v);
}
void biased (Case& c) {
  // long climbs and descents around the root, with a random proportion of ".."
  std::vector<sv> v;
  u64 const up = c.rng.range (1, 9);
  for (u64 n = c.rng.range (1, 60); n > 0; --n) {
    v.push_back (c.rng.chance (static_cast<unsigned> (up), 10) ? ".." : c.rng.pick (words));
  }
  examine (c, v);
}
void parsed (Case& c) {
  // lists as the parser makes them
  std::string s = c.rng.chance (1, 2) ? "s:" : "s://h";
  u64 const n = c.rng.range (1, 10);
  for (u64 k = 0; k < n; ++k) {
    s += "/";
    auto const w = c.rng.pick (words);
    if (!(k == 0 && w.empty ()) && w != " ") {
      s += w;
    }
  }
  if (auto const p = uri::split (s)) {
    examine (c, p->path.segments);
  }
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"enumerate", total (8), total (10), enumerate},
              {"random", 600000, 20000000, random_list},
              {"biased", 300000, 10000000, biased},
              {"parsed", 200000, 5000000, parsed},
              {"deep", 300, 6000, deep}};
  return r.main (argc, argv);
}
