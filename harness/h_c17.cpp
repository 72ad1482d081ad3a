// C17: transcoder output equals the independent codecs for all nine encoding pairs.
#include "utf_common.hpp"

#include <list>

using namespace uc;
using vf::Case;
using vf::u64;

namespace {

template <typename From, typename To> void one (Case& c, units<From> const& in) {
  auto const d = decode<From> (in);
  auto const want = encode<To> (d.cps);
  std::string const key = std::string{name<From> ()} + "to" + name<To> ();
  auto ctx = [&] { return key + " input " + show (in) + ": "; };
  auto const p = push<From, To> (in);
  if (p.out != want) {
    c.fail (key, ctx () + "got " + show (p.out) + " want " + show (want));
  }
  if (p.ok != d.ok) {
    c.fail (key + "-wf", ctx () + "well_formed is " + (p.ok ? "true" : "false"));
  }
  if (p.partial_before_end != d.partial) {
    c.fail (key + "-partial", ctx () + "partial is " + (p.partial_before_end ? "true" : "false"));
  }
  // The same input through the output-iterator wrapper, moving the transcoder between chunks,
  // watching that well_formed never recovers.
  {
    using transcoder = icubaby::transcoder<From, To>;
    // some can be told that what came before was not well formed
    bool start = true;
    transcoder t = [&c, &start] {
      if constexpr (std::is_constructible_v<transcoder, bool>) {
        start = c.rng.chance (1, 2);
        return transcoder{start};
      } else {
        return transcoder{};
      }
    }();
    if (t.well_formed () != start || t.partial ()) {
      c.fail (key + "-start", ctx () + "a new transcoder told " + (start ? "true" : "false") + " says " + (t.well_formed () ? "true" : "false"));
    }
    std::vector<To> out;
    std::size_t const cut = in.empty () ? 0 : c.rng.below (in.size () + 1);
    bool was_bad = !start;
    {
      auto it = icubaby::iterator{&t, std::back_inserter (out)};
      for (std::size_t i = 0; i < cut; ++i) {
        *(it++) = static_cast<From> (in[i]);
        was_bad = was_bad || !t.well_formed ();
      }
    }
    transcoder t2 = t;
    auto copy_of_out = out;
    auto it = icubaby::iterator{&t2, std::back_inserter (out)};
    for (std::size_t i = cut; i < in.size (); ++i) {
      *(it++) = static_cast<From> (in[i]);
      if (was_bad && t2.well_formed ()) {
        c.fail (key + "-sticky", ctx () + "well_formed recovered");
      }
      was_bad = was_bad || !t2.well_formed ();
    }
    (void)t2.end_cp (it);
    units<To> o;
    for (auto const u : out) {
      o.push_back (static_cast<unit_t<To>> (u));
    }
    if (o != want || t2.well_formed () != (d.ok && start)) {
      c.fail (key + "-chunk", ctx () + "chunked at " + std::to_string (cut) + " got " + show (o));
    }
    // the original, left where the copy was made, carries on by itself
    auto dest = std::back_inserter (copy_of_out);
    for (std::size_t i = cut; i < in.size (); ++i) {
      dest = t (static_cast<From> (in[i]), dest);
    }
    (void)t.end_cp (dest);
    // Once the end has been signalled nothing is pending, and another text may follow.
    if (t.partial () || t2.partial ()) {
      c.fail (key + "-partial-after-end", ctx () + "partial after the end was signalled");
    }
    {
      auto more = out;
      auto at = std::back_inserter (more);
      at = t2.end_cp (at);
      if (more.size () != out.size ()) {
        c.fail (key + "-end-twice", ctx () + "signalling the end again produces output");
      }
      bool const before = t2.well_formed ();
      for (auto const u : in) {
        at = t2 (static_cast<From> (u), at);
      }
      at = t2.end_cp (at);
      if (more.size () != 2 * out.size () || !std::equal (out.begin (), out.end (), more.begin () + static_cast<std::ptrdiff_t> (out.size ())) ||
          t2.well_formed () != (before && d.ok)) {
        c.fail (key + "-again", ctx () + "a second text through the same transcoder gives " + std::to_string (more.size () - out.size ()) + " units");
      }
      c.tally ("second-texts");
    }
    if (copy_of_out != out || t.well_formed () != (d.ok && start)) {
      c.fail (key + "-copy", ctx () + "copied at " + std::to_string (cut) + ", original and copy differ");
    }
  }
  c.tally (d.ok ? "well-formed" : d.partial ? "ill-formed:cut-off" : "ill-formed");
}
template <typename From> void all_to (Case& c, units<From> const& in) {
  c.note (std::string{name<From> ()} + show (in));
  one<From, c8> (c, in);
  one<From, char16_t> (c, in);
  one<From, char32_t> (c, in);
  c.distinct (vf::hash_bytes (in.data (), in.size () * sizeof (unit_t<From>), sizeof (From)));
  c.sample ([&] { return std::string{"UTF-"} + name<From> () + " " + show (in); });
}

constexpr u64 cp_chunk = 128;
constexpr u64 cp_cases = 0x110000 / cp_chunk;
void every_code_point (Case& c) {  // each scalar value alone, in every encoding
  for (u64 k = 0; k < cp_chunk; ++k) {
    auto const cp = static_cast<char32_t> (c.idx * cp_chunk + k);
    if (utf::is_surr (cp)) {
      all_to<char32_t> (c, {static_cast<std::uint32_t> (cp)});
      continue;
    }
    std::u32string const s{cp, U'/'};
    all_to<c8> (c, encode<c8> (s));
    all_to<char16_t> (c, encode<char16_t> (s));
    all_to<char32_t> (c, encode<char32_t> (s));
  }
}
void all_pairs8 (Case& c) {
  for (unsigned b = 0; b < 256; ++b) {
    all_to<c8> (c, {static_cast<std::uint8_t> (c.idx), static_cast<std::uint8_t> (b)});
  }
}
void all_triples8 (Case& c) {
  for (unsigned b = 0; b < 256; ++b) {
    all_to<c8> (c, {static_cast<std::uint8_t> (c.idx >> 8), static_cast<std::uint8_t> (c.idx), static_cast<std::uint8_t> (b)});
  }
}
void all_units16 (Case& c) {
  for (unsigned b = 0; b < 256; ++b) {
    all_to<char16_t> (c, {static_cast<std::uint16_t> (c.idx * 256 + b)});
  }
}
template <unsigned L> void classes8 (Case& c) { all_to<c8> (c, nth_units<c8> (c.idx, L)); }
template <unsigned L> void classes16 (Case& c) { all_to<char16_t> (c, nth_units<char16_t> (c.idx, L)); }
template <unsigned L> void classes32 (Case& c) { all_to<char32_t> (c, nth_units<char32_t> (c.idx, L)); }
void random_damaged (Case& c) {
  switch (c.rng.below (3)) {
  case 0: all_to<c8> (c, damaged<c8> (c.rng)); break;
  case 1: all_to<char16_t> (c, damaged<char16_t> (c.rng)); break;
  default: all_to<char32_t> (c, damaged<char32_t> (c.rng)); break;
  }
}
void random_good (Case& c) {
  auto const s = random_text (c.rng, 40);
  all_to<c8> (c, encode<c8> (s));
  all_to<char16_t> (c, encode<char16_t> (s));
  all_to<char32_t> (c, encode<char32_t> (s));
}
// the small query helpers: length, index, start-of-sequence test
void helpers (Case& c) {
  auto const s = random_text (c.rng, 20);
  auto check = [&]<typename T> (T) {
    auto const u = encode<T> (s);
    std::vector<T> v;
    for (auto const x : u) {
      v.push_back (static_cast<T> (x));
    }
    if (icubaby::length (v) != static_cast<std::ptrdiff_t> (s.size ()) ||
        icubaby::length (v.begin (), v.end ()) != static_cast<std::ptrdiff_t> (s.size ())) {
      c.fail ("length", std::string{"length of UTF-"} + name<T> () + " " + show (u));
    }
    std::size_t off = 0;
    for (std::size_t k = 0; k <= s.size (); ++k) {
      auto const it = icubaby::index (v, k);
      if (static_cast<std::size_t> (it - v.begin ()) != off ||
          icubaby::index (v.begin (), v.end (), k) != it) {
        c.fail ("index", std::string{"index "} + std::to_string (k) + " of UTF-" + name<T> () + " " + show (u));
        break;
      }
      if (k < s.size ()) {
        off += encode<T> (std::u32string (1, s[k])).size ();
      }
    }
  };
  check (c8{});
  check (char16_t{});
  check (char32_t{});
}
constexpr u64 ipow (u64 b, unsigned e) {
  u64 r = 1;
  while (e-- > 0) {
    r *= b;
  }
  return r;
}
}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  constexpr u64 n8 = std::size (class8), n16 = std::size (class16), n32 = std::size (class32);
  r.phases = {
    {"every-code-point", cp_cases, cp_cases, every_code_point},
    {"all-byte-pairs", 256, 256, all_pairs8},
    {"all-byte-triples", 0, 65536, all_triples8},
    {"all-16bit-units", 256, 256, all_units16},
    {"utf8-classes-3", ipow (n8, 3), ipow (n8, 3), classes8<3>},
    {"utf8-classes-4", ipow (n8, 4), ipow (n8, 4), classes8<4>},
    {"utf8-classes-5", 0, ipow (n8, 5), classes8<5>},
    {"utf16-classes-3", ipow (n16, 3), ipow (n16, 3), classes16<3>},
    {"utf16-classes-4", ipow (n16, 4), ipow (n16, 4), classes16<4>},
    {"utf16-classes-5", 0, ipow (n16, 5), classes16<5>},
    {"utf32-classes-1", n32, n32, classes32<1>},
    {"utf32-classes-3", ipow (n32, 3), ipow (n32, 3), classes32<3>},
    {"damaged", 300000, 10000000, random_damaged},
    {"well-formed", 50000, 2000000, random_good},
    {"helpers", 50000, 1000000, helpers},
  };
  return r.main (argc, argv);
}
