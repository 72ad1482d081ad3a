// C08: percent-decoding, through every interface and traversal.
#include <forward_list>
#include <list>
#include <memory>
#include <sstream>

#include "gen_uri.hpp"
#include "oracle_pct.hpp"
#include "uri/pctdecode.hpp"
#include "vf.hpp"

using gen::sv;
using vf::u64;

namespace {

std::string want (sv s) { return pct::decode (s); }

template <typename B, typename E> std::string drain_pre (B it, E end) {
  std::string r;
  for (; it != end; ++it) {
    r += static_cast<char> (*it);
  }
  return r;
}
template <typename B, typename E> std::string drain_post (B it, E end) {
  std::string r;
  while (it != end) {
    auto const old = it++;
    r += static_cast<char> (*old);
  }
  return r;
}
template <typename B, typename E> std::string drain_repeat (B it, E end) {
  std::string r;
  for (; it != end; ++it) {
    auto const a = static_cast<char> (*it);
    auto const b = static_cast<char> (*it);
    auto copy = it;
    auto const d = static_cast<char> (*copy);
    if (a != b || a != d) {
      r += "<repeated dereference differs>";
    }
    r += a;
  }
  return r;
}
// a lagging copy must not be disturbed by the iterator that runs ahead
template <typename B, typename E> std::string drain_lag (B it, E end) {
  std::string r;
  if (it == end) {
    return r;
  }
  auto lag = it;
  ++it;
  for (; it != end; ++it, ++lag) {
    (void)static_cast<char> (*it);
    r += static_cast<char> (*lag);
  }
  r += static_cast<char> (*lag);
  return ++lag == end ? r : r + "<end differs>";
}
template <typename B, typename E> std::string drain_arrow (B it, E end) {
  std::string r;
  for (; it != end; ++it) {
    r += static_cast<char> (*(it.operator-> ()));
  }
  return r;
}
template <typename B, typename E> std::string drain_move (B it, E end) {
  std::string r;
  for (; it != end; ++it) {
    r += static_cast<char> (std::ranges::iter_move (it));
  }
  return r;
}

// Any number of iterators over one range, each copied, assigned, advanced, dereferenced and compared in
// any order, against a model in which an iterator is an index into the decoded string. What an iterator
// denotes must not depend on how it was obtained (begin, copy, assignment, the result of ++x or of x++).
template <typename B, typename E> void walk (vf::Case& c, sv in, std::string const& w, char const* key, B const first, E const last) {
  struct Pos {
    B it;
    std::size_t at;
  };
  std::vector<Pos> pool (1, Pos{first, 0});
  auto bad = [&] (char const* what) {
    c.fail (std::string{key} + ":walk", std::string{key} + ": " + what + " on " + vf::esc (in));
  };
  for (unsigned step = 0; step < 12 + 3 * std::min<std::size_t> (w.size (), 20); ++step) {
    auto const k = c.rng.below (pool.size ());
    auto const op = c.rng.below (10);
    bool const end = pool[k].at == w.size ();
    if ((pool[k].it == last) != end) {
      return bad ("the end is not where it should be");
    }
    if (op < 3) {
      if (!end) {
        for (int twice = 0; twice < 2; ++twice) {
          if (static_cast<char> (*pool[k].it) != w[pool[k].at]) {
            return bad ("an iterator denotes the wrong byte");
          }
        }
      }
    } else if (op < 5) {
      if (!end) {
        auto&& r = ++pool[k].it;
        ++pool[k].at;
        if (!(r == pool[k].it)) {
          return bad ("the result of ++x is not x");
        }
      }
    } else if (op < 8) {
      if (!end) {
        B const before = pool[k].it;
        B old = pool[k].it++;
        ++pool[k].at;
        if (!(old == before)) {
          return bad ("the result of x++ is not equal to the old x");
        }
        if (op == 5) {  // the copy is as good as any other iterator
          pool.push_back (Pos{old, pool[k].at - 1});
        } else if (static_cast<char> (*old) != w[pool[k].at - 1] || static_cast<char> (*before) != w[pool[k].at - 1]) {
          return bad ("the result of x++ denotes the wrong byte");
        }
      }
    } else if (op == 8) {
      auto const j = c.rng.below (pool.size ());
      if ((pool[k].it == pool[j].it) != (pool[k].at == pool[j].at)) {
        return bad ("equality differs from that of the positions");
      }
      if (j != k && c.rng.chance (1, 2)) {
        pool[k].it = pool[j].it;
        pool[k].at = pool[j].at;
      }
    } else if (pool.size () < 6) {
      pool.push_back (Pos{pool[k].it, pool[k].at});
    } else {
      pool.erase (pool.begin () + static_cast<std::ptrdiff_t> (k));
    }
    if (pool.size () > 8) {
      pool.erase (pool.begin ());
    }
  }
  for (auto& p : pool) {  // every survivor still reaches the end through the right bytes
    for (; p.at < w.size () && p.at < 40; ++p.at, ++p.it) {
      if (p.it == last || static_cast<char> (*p.it) != w[p.at]) {
        return bad ("an iterator lost its way");
      }
    }
    if (p.at == w.size () && !(p.it == last)) {
      return bad ("an iterator misses the end");
    }
  }
  c.tally ("walks");
}

struct Ctx {
  vf::Case& c;
  sv in;
  std::string w;
  void eq (char const* key, std::string const& got) const {
    if (got != w) {
      c.fail (key, std::string{key} + " on " + vf::esc (in) + " gives " + vf::esc (got) + ", want " + vf::esc (w));
    }
  }
};

template <typename It> void iterators (Ctx const& x, char const* what, It first, It last) {
  using pi = uri::pctdecode_iterator<It>;
  pi const b{first, last};
  pi const e{last, last};
  std::string const k = what;
  x.eq ((k + ":pre").c_str (), drain_pre (b, e));
  x.eq ((k + ":post").c_str (), drain_post (b, e));
  x.eq ((k + ":repeat").c_str (), drain_repeat (b, e));
  x.eq ((k + ":lag").c_str (), drain_lag (b, e));
  x.eq ((k + ":arrow").c_str (), drain_arrow (b, e));
  x.eq ((k + ":algorithm").c_str (), std::string (b, e));
  uri::pctdecoder<It> const d{first, last};
  x.eq ((k + ":range").c_str (), drain_pre (d.begin (), d.end ()));
  x.eq ((k + ":range-second-pass").c_str (), drain_post (d.begin (), d.end ()));
  walk (x.c, x.in, x.w, what, b, e);
  if (static_cast<std::size_t> (std::distance (b, e)) != x.w.size ()) {
    x.c.fail (k + ":distance", "distance of " + vf::esc (x.in) + " is not " + std::to_string (x.w.size ()));
  }
}

template <typename V> void views (Ctx const& x, char const* what, V const& v) {
  std::string const k = what;
  x.eq ((k + ":view-pre").c_str (), drain_pre (v.begin (), v.end ()));
  x.eq ((k + ":view-post").c_str (), drain_post (v.begin (), v.end ()));
  x.eq ((k + ":view-repeat").c_str (), drain_repeat (v.begin (), v.end ()));
  x.eq ((k + ":view-lag").c_str (), drain_lag (v.begin (), v.end ()));
  x.eq ((k + ":view-move").c_str (), drain_move (v.begin (), v.end ()));
  walk (x.c, x.in, x.w, (k + "-view").c_str (), v.begin (), v.end ());
  std::string a;
  std::ranges::copy (v, std::back_inserter (a));
  x.eq ((k + ":view-copy").c_str (), a);
  std::string m;
  std::ranges::move (v.begin (), v.end (), std::back_inserter (m));
  x.eq ((k + ":view-ranges-move").c_str (), m);
  auto const copy = v;
  x.eq ((k + ":view-copied").c_str (), drain_pre (copy.begin (), copy.end ()));
  if (v.empty () != x.w.empty ()) {
    x.c.fail (k + ":view-empty", "empty() is wrong for " + vf::esc (x.in));
  }
  if (!x.w.empty () && static_cast<char> (v.front ()) != x.w.front ()) {
    x.c.fail (k + ":view-front", "front() is wrong for " + vf::esc (x.in));
  }
  if (static_cast<std::size_t> (std::ranges::distance (v)) != x.w.size ()) {
    x.c.fail (k + ":view-distance", "distance is wrong for " + vf::esc (x.in));
  }
}

void check (vf::Case& c, sv text) {
  c.note (text);
  vf::Block const block{text};
  sv const in = block.view ();
  Ctx const x{c, in, want (in)};

  x.eq ("string", uri::pctdecode (in));
  iterators (x, "pointer", in.data (), in.data () + in.size ());
  std::vector<char> const vec{in.begin (), in.end ()};
  iterators (x, "vector", vec.begin (), vec.end ());
  {
    std::string const s{in};
    x.eq ("begin-end", drain_pre (uri::pctdecode_begin (s), uri::pctdecode_end (s)));
    x.eq ("begin-end-post", drain_post (uri::pctdecode_begin (s), uri::pctdecode_end (s)));
    x.eq ("wrapper-view", drain_repeat (uri::pctdecoder{in}.begin (), uri::pctdecoder{in}.end ()));
  }
  views (x, "sv", in | uri::views::pctdecode);
  views (x, "call", uri::views::pctdecode (in));
  views (x, "vector", vec | uri::views::pctdecode);
  {
    std::string const s{in};
    views (x, "string", s | uri::views::pctdecode);
    auto const v = s | uri::views::pctdecode;
    std::string low;
    for (char const ch : v | std::views::transform ([] (char a) { return static_cast<char> (a ^ 0x20); })) {
      low += static_cast<char> (ch ^ 0x20);
    }
    x.eq ("adaptor-chain", low);
  }
  {
    // a mutable container: reading through the view must not change it
    std::string s{in};
    views (x, "mutable", s | uri::views::pctdecode);
    if (s != in) {
      c.fail ("container-changed", "decoding changed the container");
    }
  }
  bool const pct = in.find ('%') != sv::npos;
  std::list<char> const l{in.begin (), in.end ()};
  std::forward_list<char> const f{in.begin (), in.end ()};
  if (uri::needs_pctdecode (in.begin (), in.end ()) != pct || uri::needs_pctdecode (l.begin (), l.end ()) != pct ||
      uri::needs_pctdecode (f.begin (), f.end ()) != pct || uri::needs_pctdecode (in.data (), in.data () + in.size ()) != pct) {
    c.fail ("needs", "needs_pctdecode is wrong for " + vf::esc (in));
  }
  if (in != text) {
    c.fail ("input-changed", "decoding changed the input");
  }
  if (pct) {
    c.distinct (vf::hash_str (in));
  }
  c.tally (!pct ? "no-percent" : x.w == in ? "percent-but-no-escape" : "decoded");
  if (want (x.w) != x.w) {
    c.tally ("decoding-reveals-an-escape");
  }
  if (in.size () >= 1 && in.back () == '%') {
    c.tally ("ends-with-percent");
  }
  if (in.size () >= 2 && in[in.size () - 2] == '%') {
    c.tally ("ends-one-digit-short");
  }
  c.sample ([&] { return vf::esc (in, 60) + " -> " + vf::esc (x.w, 60); });
}

void enumerate (vf::Case& c) { check (c, gen::nth_string (c.idx, "%2aFg5")); }
void enum_small (vf::Case& c) { check (c, gen::nth_string (c.idx, "%25")); }
void all_pairs (vf::Case& c) {
  std::string s = "%";
  s += static_cast<char> (c.idx & 0xFF);
  s += static_cast<char> ((c.idx >> 8) & 0xFF);
  check (c, s);
  check (c, "x" + s + "%");
}
void sweep (vf::Case& c) {
  static constexpr sv base[] = {"", "%", "%4", "%41", "a%41b", "%%41", "%4%41", "%2541"};
  std::string s{base[c.idx / 256 % 8]};
  auto const pos = c.idx / 2048 % (s.size () + 1);
  s.insert (pos, 1, static_cast<char> (c.idx % 256));
  check (c, s);
}
void random_text (vf::Case& c) {
  std::string s;
  for (u64 n = c.rng.below (12); n > 0; --n) {
    switch (c.rng.below (6)) {
    case 0: s += '%'; break;
    case 1:
      s += '%';
      s += c.rng.pick_char (gen::hexd);
      break;
    case 2:
    case 3: gen::pct (c.rng, s); break;
    case 4: s += static_cast<char> (c.rng.below (256)); break;
    default: s += c.rng.pick_char ("25aAfFgG/@`:%");
    }
  }
  check (c, s);
}
void longs (vf::Case& c) {
  static constexpr u64 lengths[] = {15, 16, 17, 255, 256, 1000, 4096, 65536};
  std::string s;
  auto const n = lengths[c.idx % 8];
  auto const kind = c.idx / 8 % 5;
  if (kind == 4) {
    // nothing to decode but at the end, past the limits of narrow counters
    s.assign (n - c.rng.below (3), 'a');
    s += c.rng.chance (1, 4) ? "" : c.rng.chance (1, 2) ? "%" : c.rng.chance (1, 2) ? "%4" : "%41";
    check (c, s);
    return;
  }
  while (s.size () < n) {
    if (kind == 0) {
      s += '%';
    } else if (kind == 1) {
      gen::pct (c.rng, s);
    } else if (kind == 2) {
      s += "%2";
    } else {
      s += c.rng.chance (1, 3) ? "%zz" : "%e9";
    }
  }
  s.resize (n);
  check (c, s);
}

// needs_pctdecode takes plain input iterators
void input_iterators (vf::Case& c) {
  auto const s = gen::nth_string (c.idx, "a%2");
  std::istringstream is{s};
  if (uri::needs_pctdecode (std::istreambuf_iterator<char>{is}, std::istreambuf_iterator<char>{}) != (s.find ('%') != s.npos)) {
    c.fail ("needs-input", "needs_pctdecode is wrong for " + vf::esc (s));
  }
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"enumerate", gen::count_strings (6, 6), gen::count_strings (6, 8), enumerate},
              {"enum-small", gen::count_strings (3, 9), gen::count_strings (3, 12), enum_small},
              {"all-pairs", 65536, 65536, all_pairs},
              {"sweep", 2048 * 6, 2048 * 6, sweep},
              {"random", 200000, 10000000, random_text},
              {"input-iterators", gen::count_strings (3, 6), gen::count_strings (3, 8), input_iterators},
              {"long", 8 * 5 * 2, 8 * 5 * 20, longs}};
  return r.main (argc, argv);
}
