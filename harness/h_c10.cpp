// C10: punycode against RFC 3492.
#include <deque>
#include <forward_list>
#include <list>
#include <memory>

#include "gen_puny.hpp"
#include "uri/punycode.hpp"
#include "vf.hpp"

using gen::sv;
using vf::u64;

namespace {

std::string show (std::u32string const& s) {
  std::string r = "<";
  char b[16];
  for (auto const c : s) {
    std::snprintf (b, sizeof b, " %X", static_cast<unsigned> (c));
    r += b;
    if (r.size () > 400) {
      break;
    }
  }
  return r + " >";
}

bool code_ok (vf::Case& c, std::error_code const& ec) {
  if (!ec || ec.category ().name () == nullptr || *ec.category ().name () == '\0' || ec.message ().empty ()) {
    c.fail ("error-code", "a punycode error has no category name or message");
  }
  return ec.category () == make_error_code (uri::punycode::decode_error_code::overflow).category ();
}

template <typename Result> void judge (vf::Case& c, char const* how, sv in, Result const& res, puny::Decoded const& w,
                                       puny::Decoded const& alt, bool at_end) {
  using uri::punycode::decode_error_code;
  auto ok_for = [&] (puny::Decoded const& o) {
    if (auto const* const ec = std::get_if<std::error_code> (&res)) {
      bool const cat = code_ok (c, *ec);
      switch (o.v) {
      case puny::Verdict::ok: return false;
      case puny::Verdict::bad_input: return *ec == make_error_code (decode_error_code::bad_input);
      case puny::Verdict::overflow: return *ec == make_error_code (decode_error_code::overflow);
      default: return cat;
      }
    }
    auto const& s = std::get<1> (res);
    return (o.v == puny::Verdict::ok || o.v == puny::Verdict::ok_or_error) && s.str == o.text && at_end;
  };
  if (!ok_for (w) && !ok_for (alt)) {
    static constexpr char const* names[] = {"text", "bad input", "overflow", "an error", "text or an error"};
    auto const* const ec = std::get_if<std::error_code> (&res);
    c.fail ("decode", std::string{how} + ": decoding " + vf::esc (in) + " gives " +
            (ec != nullptr ? "error \"" + ec->message () + "\"" : show (std::get<1> (res).str) + (at_end ? "" : " (input not consumed)")) +
            ", want " + names[static_cast<int> (w.v)] + " " + show (w.text));
  }
}

void decode_check (vf::Case& c, sv text) {
  c.note (text);
  vf::Block const block{text};
  sv const in = block.view ();
  auto const w = puny::decode (in, false);
  auto const alt = puny::decode (in, true);
  auto fin = [] (auto const& r, auto end) {
    auto const* const s = std::get_if<1> (&r);
    return s == nullptr || s->in == end;
  };
  {
    auto const r = uri::punycode::decode (in);
    judge (c, "string_view", in, r, w, alt, fin (r, in.end ()));
  }
  {
    auto const r = uri::punycode::decode (in.data (), in.data () + in.size ());
    judge (c, "pointers", in, r, w, alt, fin (r, in.data () + in.size ()));
  }
  {
    std::list<char> l{in.begin (), in.end ()};
    auto const r = uri::punycode::decode (l);
    judge (c, "list", in, r, w, alt, fin (r, l.end ()));
  }
  {
    // a range whose end is a sentinel of another type
    std::string const s = std::string{in} + "\x01" + "zz";
    auto const v = std::ranges::subrange{s.begin (), s.end ()} | std::views::take_while ([] (char ch) { return ch != '\x01'; });
    if (in.find ('\x01') == sv::npos) {
      auto const r = uri::punycode::decode (v);
      judge (c, "take_while", in, r, w, alt, fin (r, s.begin () + static_cast<std::ptrdiff_t> (in.size ())));
    }
  }
  static constexpr char const* names[] = {"decode:text", "decode:bad-input", "decode:overflow", "decode:error", "decode:text-or-error"};
  c.tally (names[static_cast<int> (w.v)]);
  if (w.v != puny::Verdict::ok || !w.text.empty ()) {
    c.distinct (vf::hash_str (in));
  }
  if (w.v == puny::Verdict::ok) {
    // encoding the result gives the same text up to the case of digits and non-minimal forms
    std::string again;
    uri::punycode::encode (w.text, false, std::back_inserter (again));
    auto const back = puny::decode (again, false);
    if (back.v != puny::Verdict::ok || back.text != w.text) {
      c.fail ("inverse", "encoding the decoded " + vf::esc (in) + " gives " + vf::esc (again));
    }
  }
  c.sample ([&] { return vf::esc (in, 60) + " -> " + names[static_cast<int> (w.v)] + " " + show (w.text); });
}

void encode_check (vf::Case& c, std::u32string const& in) {
  c.note (show (in));
  for (bool const plain : {false, true}) {
    auto const w = puny::encode (in, plain);
    auto bad = [&] (char const* how, std::string const& got, bool flag, bool end) {
      if (got != w.text || flag != w.non_ascii || !end) {
        c.fail ("encode", std::string{how} + ": encoding " + show (in) + (plain ? " (plain allowed)" : "") + " gives " + vf::esc (got) +
                (flag ? " non-ascii" : " ascii") + (end ? "" : " input not consumed") + ", want " + vf::esc (w.text));
      }
    };
    {
      std::string g = "<";
      auto [it, out, flag] = uri::punycode::encode (in, plain, std::back_inserter (g));
      *out++ = '>';
      bad ("string", g.substr (1, g.size () - 2), flag, it == in.end ());
    }
    {
      std::forward_list<char32_t> const l{in.begin (), in.end ()};
      std::deque<char> g;
      auto const [it, out, flag] = uri::punycode::encode (l, plain, std::back_inserter (g));
      bad ("forward_list", std::string{g.begin (), g.end ()}, flag, it == l.end ());
    }
    {
      std::unique_ptr<char32_t[]> const p{new char32_t[in.size ()]};
      std::copy (in.begin (), in.end (), p.get ());
      std::unique_ptr<char[]> const o{new char[w.text.size ()]};
      auto const span = std::ranges::subrange{p.get (), p.get () + in.size ()};
      if (w.text.size () > 0 || in.empty ()) {
        // only if the result fits: the oracle says how long it is
        auto const [it, out, flag] = uri::punycode::encode (span, plain, o.get ());
        bad ("buffers", std::string{o.get (), static_cast<std::size_t> (out - o.get ())}, flag, it == p.get () + in.size ());
      }
    }
    {
      auto ext = in;
      ext += U'\x1';
      ext += U"\u00e9z";
      if (in.find (U'\x1') == in.npos) {
        auto v = std::ranges::subrange{ext.begin (), ext.end ()} | std::views::take_while ([] (char32_t ch) { return ch != U'\x1'; });
        std::string g;
        auto const [it, out, flag] = uri::punycode::encode (v, plain, std::back_inserter (g));
        bad ("take_while", g, flag, it == ext.begin () + static_cast<std::ptrdiff_t> (in.size ()));
      }
    }
    c.tally (w.non_ascii ? "encode:non-ascii" : plain ? "encode:plain" : "encode:ascii");
  }
  std::string e;
  uri::punycode::encode (in, false, std::back_inserter (e));
  auto const r = uri::punycode::decode (sv{e});
  auto const* const s = std::get_if<1> (&r);
  if (s == nullptr || s->str != in) {
    c.fail ("round-trip", "decoding the encoding " + vf::esc (e) + " of " + show (in) + " gives " + (s != nullptr ? show (s->str) : std::string{"an error"}));
  }
  c.distinct (vf::hash_bytes (in.data (), in.size () * sizeof (char32_t)));
  c.sample ([&] { return show (in) + " -> " + vf::esc (e, 80); });
}

void enum_decode (vf::Case& c) { decode_check (c, gen::nth_string (c.idx, "-aA9zk\x80")); }
void enum_digits (vf::Case& c) { decode_check (c, gen::nth_string (c.idx, "abz09M")); }
void every_two (vf::Case& c) {
  std::string s (1, static_cast<char> (c.idx % 256));
  s += static_cast<char> (c.idx / 256);
  decode_check (c, s);
  decode_check (c, "b-" + s);
  decode_check (c, s + "a");
}
void enum_encode (vf::Case& c) {
  static constexpr char32_t alphabet[] = {U'a', U'-', 0x80, 0xE9, 0x4E00, 0x10FFFF};
  std::u32string s;
  for (char const ch : gen::nth_string (c.idx, "012345")) {
    s += alphabet[ch - '0'];
  }
  encode_check (c, s);
}
void every_code_point (vf::Case& c) {
  auto const cp = static_cast<char32_t> (c.idx);
  encode_check (c, std::u32string (1, cp));
  if (c.idx % 16 == 0) {
    encode_check (c, std::u32string{cp, U'a', 0x10FFFF - cp});
  }
}
void random_encode (vf::Case& c) { encode_check (c, gpu::text (c.rng, c.rng.chance (1, 20) ? 200 : 12, true)); }
void random_decode (vf::Case& c) { decode_check (c, gpu::coded (c.rng)); }
// Values built to land near the 32- and 64-bit limits: prefix length decides how n grows.
void limits (vf::Case& c) {
  // code points around a limit encoded by the oracle, then disturbed in the last places
  static constexpr char32_t top[] = {0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFF7F, 0xFFFFFF80};
  std::u32string s;
  for (u64 n = c.rng.below (5); n > 0; --n) {
    s += static_cast<char32_t> (c.rng.chance (1, 2) ? 'a' : 0x80 + c.rng.below (4));
  }
  s.insert (c.rng.below (s.size () + 1), 1, c.rng.chance (1, 2) ? c.rng.pick (top) : static_cast<char32_t> (0xFFFFFFFF - c.rng.below (300)));
  auto t = puny::encode (s, false).text;
  for (u64 n = c.rng.below (4); n > 0; --n) {
    auto const p = t.size () - 1 - c.rng.below (std::min<u64> (t.size (), 8));
    t[p] = c.rng.pick_char ("abcxyz0189");
  }
  if (c.rng.chance (1, 4)) {
    t += c.rng.pick_char ("a9z");
  }
  decode_check (c, t);
}
void sample_strings (vf::Case& c) {
  // long inputs
  std::u32string s;
  auto const n = c.rng.range (500, 3000);
  for (u64 i = 0; i < n; ++i) {
    s += c.rng.chance (1, 4) ? static_cast<char32_t> (c.rng.range (0x20, 0x7E)) : gpu::scalar (c.rng, true);
  }
  encode_check (c, s);
}
void sample_wide (vf::Case& c) {
  // Many basic code points and a few distant ones: each step of the encoder is
  // (distance between code points) * (length), which soon exceeds 32 bits.
  std::u32string s;
  auto const n = c.rng.chance (1, 16) ? c.rng.range (20000, 200000) : c.rng.range (1000, 12000);
  auto const astral = c.rng.range (1, 4);
  auto const narrow = c.rng.chance (1, 2);
  for (u64 i = 0; i < n; ++i) {
    s += narrow ? U'a' : static_cast<char32_t> (c.rng.range (0x20, 0x7E));
  }
  for (u64 i = 0; i < astral; ++i) {
    s.insert (c.rng.below (s.size () + 1), 1,
              c.rng.chance (1, 2) ? static_cast<char32_t> (c.rng.range (0x100000, 0x10FFFF)) : gpu::scalar (c.rng, true));
  }
  encode_check (c, s);
}
void errors (vf::Case& c) {
  using uri::punycode::decode_error_code;
  auto const a = make_error_code (decode_error_code::bad_input);
  auto const b = make_error_code (decode_error_code::overflow);
  code_ok (c, a);
  code_ok (c, b);
  if (a.category () != b.category () || a == b || !a || !b || a.message () == b.message ()) {
    c.fail ("error-codes", "bad_input and overflow are not two distinct errors of one category");
  }
  for (int i = -3; i < 10; ++i) {
    if (a.category ().message (i).empty ()) {
      c.fail ("error-message", "category message is empty for " + std::to_string (i));
    }
  }
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"errors", 1, 1, errors},
              {"enum-decode", gen::count_strings (7, 6), gen::count_strings (7, 8), enum_decode},
              {"enum-digits", gen::count_strings (6, 7), gen::count_strings (6, 9), enum_digits},
              {"every-two-bytes", 65536, 65536, every_two},
              {"enum-encode", gen::count_strings (6, 5), gen::count_strings (6, 7), enum_encode},
              {"every-code-point", 0x110000, 0x110000, every_code_point},
              {"random-encode", 150000, 5000000, random_encode},
              {"random-decode", 400000, 20000000, random_decode},
              {"limits", 300000, 10000000, limits},
              {"long", 24, 600, sample_strings},
              {"wide", 60, 4000, sample_wide}};
  return r.main (argc, argv);
}
