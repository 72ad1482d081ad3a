// C12: every public operation on hostile inputs; the sanitizers and guards are the oracle.
#include "ops.hpp"

namespace {
using vf::u64;

void observe (vf::Case& c, ops::Input const& in) {
  c.note (in.show ());
  for (auto const& op : ops::list ()) {
    auto const r = op.fn (in);
    c.tally (op.name);
    c.distinct (vf::hash_str (r, vf::hash_str (op.name)));
  }
  c.sample ([&] { return in.show (); });
}

void wild (vf::Case& c) { observe (c, ops::input (c.rng, true)); }
void many_segments (vf::Case& c) { observe (c, ops::input (c.rng, true, 20 + c.rng.below (60))); }

// every field of the components hostile in turn, at lengths around small buffers
void hostile_fields (vf::Case& c) {
  auto in = ops::input (c.rng, true);
  auto& p = in.parts.p;
  u64 n = c.rng.below (40);
  auto s = c.rng.chance (1, 2) ? gen::bytes (c.rng, n) : std::string (n, c.rng.pick_char ("%\xFF\x80.:[]/-")) + gen::bytes (c.rng, c.rng.below (3));
  if (c.rng.chance (1, 3)) {
    s = "xn--" + s;
  }
  auto const v = in.parts.hold (s);
  switch (c.idx % 7) {
  case 0: p.scheme = v; break;
  case 1: p.ensure_authority ().userinfo = v; break;
  case 2: p.ensure_authority ().host = v; break;
  case 3: p.ensure_authority ().port = v; break;
  case 4: p.path.segments.push_back (v); break;
  case 5: p.query = v; break;
  default: p.fragment = v; break;
  }
  observe (c, in);
}

// one operation on one long input
void long_inputs (vf::Case& c) {
  auto in = ops::input (c.rng, true);
  u64 const n = 1000 + c.rng.below (c.thorough ? 60000 : 4000);
  std::string s = "s:";
  static constexpr std::string_view units[] = {"/", "a", "%41", "/..", "/.", "?", ":", "%", "\xC3\xA9", "/a", "0", "."};
  auto const u = c.rng.pick (units);
  while (s.size () < n) {
    s += u;
  }
  in.a = std::make_unique<corpus::Exact> (s);
  in.b = std::make_unique<corpus::Exact> (s.substr (2));
  in.raw = std::make_unique<corpus::Exact> (s);
  in.parts.p.ensure_authority ().host = in.parts.hold (s.substr (2));
  in.parts.p.path.segments.assign (n, in.parts.hold (std::string{u}));
  std::string cd (n < 3000 ? n : 3000, c.rng.pick_char ("az09-"));
  in.coded = std::make_unique<corpus::Exact> (cd);
  in.cps.assign (n < 2000 ? n : 2000, static_cast<char32_t> (c.rng.below (0x110000)));
  observe (c, in);
}

// nothing at all
void empty (vf::Case& c) {
  ops::Input in;
  auto none = [] { return std::make_unique<corpus::Exact> (std::string_view{}); };
  in.a = none ();
  in.b = none ();
  in.raw = none ();
  in.coded = none ();
  u64 const k = c.idx;
  auto put = [&] (std::optional<std::string_view>& f, u64 bit) {
    if ((k >> bit & 1) != 0) {
      f = (k >> 8 & 1) != 0 ? std::string_view{} : in.parts.hold (std::string_view{"x", 0});
    }
  };
  auto& p = in.parts.p;
  put (p.scheme, 0);
  if ((k & 2) != 0) {
    put (p.ensure_authority ().userinfo, 2);
    put (p.ensure_authority ().port, 3);
  }
  p.path.absolute = (k >> 4 & 1) != 0;
  p.path.segments.resize (k >> 5 & 1);
  put (p.query, 6);
  put (p.fragment, 7);
  observe (c, in);
  if (uri::split (std::string_view{}).has_value () || !uri::split_reference (std::string_view{}).has_value ()) {
    c.tally ("null-text-verdict-differs");
  }
  (void)uri::join (std::string_view{}, std::string_view{});
  (void)uri::pctdecode (std::string_view{});
  (void)uri::pctencode (std::string_view{}, uri::pctencode_set::path);
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"empty", 512, 512, empty},
              {"wild", 40000, 1500000, wild},
              {"hostile-fields", 14000, 500000, hostile_fields},
              {"many-segments", 3000, 100000, many_segments},
              {"long", 48, 1000, long_inputs}};
  return r.main (argc, argv);
}
