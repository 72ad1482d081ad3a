// C07: percent-encoding escapes exactly the bytes of the chosen set.
#include <algorithm>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>
#include <string>

#include "gen_uri.hpp"
#include "oracle_pct.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "vf.hpp"

using gen::sv;
using vf::u64;
using set = uri::pctencode_set;

namespace {

struct Set {
  set id;
  pct::Set model;
  char const* name;
};
constexpr Set sets[] = {
  {set::none, pct::Set::none, "none"},
  {set::fragment, pct::Set::fragment, "fragment"},
  {set::query, pct::Set::query, "query"},
  {set::special_query, pct::Set::special_query, "special_query"},
  {set::path, pct::Set::path, "path"},
  {set::userinfo, pct::Set::userinfo, "userinfo"},
  {set::component, pct::Set::component, "component"},
  {set::form_urlencoded, pct::Set::form_urlencoded, "form_urlencoded"},
};

bool escaped (unsigned char c, Set const& s) { return pct::escaped (c, s.model); }
std::string want (sv in, Set const& s) { return pct::encode (in, s.model); }

template <typename C> bool needs (C const& c, set id) { return uri::needs_pctencode (std::begin (c), std::end (c), id); }

void check (vf::Case& c, sv text, Set const& s) {
  vf::Block const block{text};
  sv const in = block.view ();
  auto const w = want (in, s);
  bool const must = w != in;
  auto bad = [&] (char const* key, std::string const& got) {
    c.fail (key, std::string{key} + " with set " + s.name + " on " + vf::esc (in) + " gives " + vf::esc (got) + ", want " + vf::esc (w));
  };
  if (auto const g = uri::pctencode (in, s.id); g != w) {
    bad ("encode", g);
  }
  {
    std::string g = "<";
    auto it = uri::pctencode (in.begin (), in.end (), std::back_inserter (g), s.id);
    *it++ = '>';
    if (g != "<" + w + ">") {
      bad ("encode-iterators", g);
    }
  }
  {
    // a raw output buffer that is exactly as large as the result
    std::unique_ptr<char[]> out{new char[w.size ()]};
    auto* const e = uri::pctencode (in.data (), in.data () + in.size (), out.get (), s.id);
    if (sv{out.get (), static_cast<std::size_t> (e - out.get ())} != w) {
      bad ("encode-pointers", std::string{out.get (), static_cast<std::size_t> (e - out.get ())});
    }
  }
  {
    std::vector<unsigned char> const u{in.begin (), in.end ()};
    std::vector<unsigned char> g;
    uri::pctencode (u.begin (), u.end (), std::back_inserter (g), s.id);
    if (!std::equal (g.begin (), g.end (), w.begin (), w.end (), [] (unsigned char a, char b) { return static_cast<char> (a) == b; })) {
      bad ("encode-unsigned", std::string{g.begin (), g.end ()});
    }
    if (needs (u, s.id) != must) {
      bad ("needs-unsigned", must ? "false" : "true");
    }
  }
  {
    std::forward_list<char> const l{in.begin (), in.end ()};
    std::deque<char> g;
    uri::pctencode (l.begin (), l.end (), std::back_inserter (g), s.id);
    if (!std::equal (g.begin (), g.end (), w.begin (), w.end ())) {
      bad ("encode-list", std::string{g.begin (), g.end ()});
    }
    std::list<signed char> const sl{in.begin (), in.end ()};
    if (needs (l, s.id) != must || needs (sl, s.id) != must) {
      bad ("needs-list", must ? "false" : "true");
    }
  }
  if (c.rng.chance (1, 8)) {  // text that can be read once only, and written to a stream
    using Buf = std::istreambuf_iterator<char>;
    std::istringstream is{std::string{in}}, again{std::string{in}};
    std::ostringstream os;
    uri::pctencode (Buf{is}, Buf{}, std::ostreambuf_iterator<char>{os}, s.id);
    if (os.str () != w) {
      bad ("encode-stream", os.str ());
    }
    if (uri::needs_pctencode (Buf{again}, Buf{}, s.id) != must) {
      bad ("needs-stream", must ? "false" : "true");
    }
    std::u8string const u8{in.begin (), in.end ()};
    std::u8string g8;
    uri::pctencode (u8.begin (), u8.end (), std::back_inserter (g8), s.id);
    if (!std::equal (g8.begin (), g8.end (), w.begin (), w.end (), [] (char8_t a, char b) { return static_cast<char> (a) == b; })) {
      bad ("encode-u8", std::string{g8.begin (), g8.end ()});
    }
    c.tally ("single-pass");
  }
  if (uri::needs_pctencode (in, s.id) != must) {
    bad ("needs-string", must ? "false" : "true");
  }
  if (needs (in, s.id) != must) {
    bad ("needs-iterators", must ? "false" : "true");
  }
  if (s.id != set::none) {
    if (uri::pctdecode (uri::pctencode (in, s.id)) != in) {
      bad ("round-trip", uri::pctdecode (uri::pctencode (in, s.id)));
    }
  }
  if (in != text) {
    c.fail ("input-changed", "the input was modified");
  }
  c.tally (must ? "changed" : "unchanged");
  if (must) {
    c.distinct (vf::hash_str (in, static_cast<u64> (s.id) + 1));
  }
  c.sample ([&] { return vf::esc (in, 60) + " in " + s.name + " -> " + vf::esc (w, 60); });
}

void singles (vf::Case& c) {
  auto const& s = sets[c.idx / 256];
  auto const b = static_cast<unsigned char> (c.idx % 256);
  if (uri::needs_pctencode (static_cast<std::uint_least8_t> (b), s.id) != escaped (b, s)) {
    c.fail ("needs-byte", "needs_pctencode(" + std::to_string (b) + ", " + s.name + ") should be " + (escaped (b, s) ? "true" : "false"));
  }
  std::string const one (1, static_cast<char> (b));
  check (c, one, s);
  check (c, "a" + one, s);
  check (c, one + "~", s);
  check (c, "x" + one + one + "y", s);
  c.tally (escaped (b, s) ? "byte-escaped" : "byte-kept");
}
void pairs (vf::Case& c) {
  auto const& s = sets[c.idx / 256];
  for (unsigned b = 0; b < 256; ++b) {
    std::string const t{static_cast<char> (c.idx % 256), static_cast<char> (b)};
    c.note (t);
    check (c, t, s);
  }
}
void strings (vf::Case& c) {
  auto const& s = c.rng.pick (sets);
  std::string t;
  switch (c.rng.below (4)) {
  case 0: t = gen::bytes (c.rng, c.rng.below (40)); break;
  case 1: t = gen::word (c.rng, 0, ":@/?"); break;
  case 2:
    for (u64 n = c.rng.below (20); n > 0; --n) {
      t += c.rng.pick_char (" !\"#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~\x7F\x80\xFF\x1F%%%");
    }
    break;
  default:
    for (u64 n = c.rng.below (12); n > 0; --n) {
      if (c.rng.chance (1, 2)) {
        gen::pct (c.rng, t);
      } else {
        t += c.rng.pick_char ("%aF0 ");
      }
    }
  }
  c.note (t);
  check (c, t, s);
}
void longs (vf::Case& c) {
  static constexpr u64 lengths[] = {0, 1, 15, 16, 17, 255, 256, 257, 4095, 4096, 65535, 65536, 65537};
  auto const n = lengths[c.idx % std::size (lengths)];
  auto const& s = sets[c.idx / std::size (lengths) % 8];
  std::string t (n, 'a');
  for (auto& ch : t) {
    if (c.rng.chance (1, 5)) {
      ch = static_cast<char> (c.rng.below (256));
    }
  }
  c.note (sv{t}.substr (0, 100));
  check (c, t, s);
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"every-byte-every-set", 8 * 256, 8 * 256, singles},
              {"every-pair", 8 * 256, 8 * 256, pairs},
              {"strings", 400000, 20000000, strings},
              {"long", 13 * 8 * 2, 13 * 8 * 40, longs}};
  return r.main (argc, argv);
}
