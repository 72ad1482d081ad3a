// C23: path conversions.
#include <filesystem>

#include "corpus_uri.hpp"
#include "gen_parts.hpp"
#include "oracle_uri.hpp"
#include "parts_common.hpp"

using pc::sv;
using vf::u64;

namespace {

// The filesystem library's appending rules, on text (POSIX: no root name).
std::string fs_append (std::string p, sv seg) {
  if (!seg.empty () && seg.front () == '/') {
    return std::string{seg};
  }
  if (!p.empty () && p.back () != '/') {
    p += '/';
  }
  return p += seg;
}

struct Snap {
  explicit Snap (struct uri::parts::path const& p) : absolute{p.absolute} {
    for (auto const s : p.segments) {
      at.emplace_back (s.data (), s.size ());
      text.emplace_back (s);
    }
    storage = p.segments.data ();
  }
  bool operator== (Snap const&) const = default;
  bool absolute;
  std::vector<std::pair<void const*, std::size_t>> at;
  std::vector<std::string> text;
  void const* storage;
};

void check_path (vf::Case& c, struct uri::parts::path const& p, sv from) {
  std::string want_text = pc::path_text (p);
  std::string want_fs = p.absolute ? "/" : "";
  for (auto const s : p.segments) {
    want_fs = fs_append (std::move (want_fs), s);
  }
  uri::parts holder;
  holder.path = p;
  auto const desc = [&] { return pc::show (holder) + (from.empty () ? "" : " (path of " + vf::esc (from, 100) + ")"); };
  Snap const before{p};
  auto const& cp = p;
  for (int round = 0; round < 2; ++round) {
    auto const text = static_cast<std::string> (cp);
    if (text != want_text) {
      c.fail ("string", "string of " + desc () + " is " + vf::esc (text) + ", want " + vf::esc (want_text));
    }
    auto const fsp = static_cast<std::filesystem::path> (cp);
    if (fsp.native () != want_fs) {
      c.fail ("filesystem", "filesystem path of " + desc () + " is " + vf::esc (fsp.native ()) + ", want " + vf::esc (want_fs));
    }
    std::filesystem::path ref{p.absolute ? "/" : ""};
    for (auto const s : p.segments) {
      ref /= std::string{s};
    }
    if (fsp != ref || std::distance (fsp.begin (), fsp.end ()) != std::distance (ref.begin (), ref.end ())) {
      c.fail ("filesystem-elements", "the filesystem path of " + desc () + " has other elements than appending the segments gives");
    }
  }
  if (!(before == Snap{p})) {
    c.fail ("modified", "converting changes " + desc ());
  }
  auto const n = p.segments.size ();
  c.tally (n == 0 ? "segments:0" : n == 1 ? "segments:1" : n < 10 ? "segments:2-9" : "segments:10+");
  c.tally (p.absolute ? "absolute" : "relative");
  if (n > 1 || (n == 1 && p.absolute)) {
    c.distinct (vf::hash_str (want_text, p.absolute ? 1 : 2) ^ n);
  }
  c.sample ([&] { return vf::esc (want_text, 80) + " -> " + vf::esc (want_fs, 80); });
}

constexpr sv pieces[] = {"", "a", "..", ".", "/x", "b/", "%2F", "\\", "C:", " "};
void enumerated (vf::Case& c) {
  u64 i = c.idx;
  struct uri::parts::path p;
  p.absolute = (i & 1) != 0;
  i >>= 1;
  u64 n = 1, length = 0;
  while (i >= n) {
    i -= n;
    n *= std::size (pieces);
    ++length;
  }
  for (u64 k = 0; k < length; ++k) {
    auto const s = pieces[i % std::size (pieces)];
    p.segments.push_back (s.empty () && c.rng.chance (1, 2) ? sv{} : s);
    i /= std::size (pieces);
  }
  c.note (pc::path_text (p));
  check_path (c, p, {});
}
void random_paths (vf::Case& c) {
  auto const o = gp::tuple (c.rng, static_cast<unsigned> (c.rng.below (5)), c.rng.chance (1, 10) ? 120 : 8);
  c.note (pc::path_text (o.p.path));
  check_path (c, o.p.path, {});
}

// more segments than narrow counters reach, with what matters where they would wrap
void many (vf::Case& c) {
  static constexpr u64 counts[] = {255, 256, 257, 4096, 32768, 65535, 65536, 65537};
  auto const n = counts[c.idx / 2 % std::size (counts)] + c.rng.below (3);
  struct uri::parts::path p;
  p.absolute = c.idx % 2 != 0;
  p.segments.assign (n, c.rng.chance (1, 2) ? "a" : "");
  for (auto const at : {u64{0}, u64{126}, u64{127}, u64{254}, u64{255}, u64{256}, u64{65534}, u64{65535}, u64{65536}, n - 1}) {
    if (at < n) {
      p.segments[at] = c.rng.chance (1, 2) ? "mark" : "m";
    }
  }
  c.note (std::to_string (n) + " segments");
  c.tally ("many-segments");
  check_path (c, p, {});
}
}  // namespace

void check_text (vf::Case& c, sv t) {
  auto const o = orc::parse (t, false);
  if (!o) {
    return;
  }
  if (auto const r = uri::split_reference (t)) {
    check_path (c, r->path, t);
    // what was parsed is what is written
    if (auto const text = static_cast<std::string> (r->path); text != o->path) {
      c.fail ("parsed-string", "path of " + vf::esc (t) + " converts to " + vf::esc (text) + ", want " + vf::esc (o->path));
    }
    c.tally ("parsed");
  }
}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"enumerated", 2 * gen::count_strings (10, 4), 2 * gen::count_strings (10, 5), enumerated},
              {"random", 200000, 5000000, random_paths},
              {"grammar", 150000, 5000000, corpus::grammar},
              {"enum-struct", gen::count_strings (6, 6), gen::count_strings (6, 8), corpus::enum_struct},
              {"long", 132, 1320, corpus::long_text},
              {"many", 4, 640, many}};
  return r.main (argc, argv);
}
