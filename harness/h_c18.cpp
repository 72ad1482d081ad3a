// C18: byte streams are decoded according to their byte order mark.
#include "utf_common.hpp"

using namespace uc;
using vf::Case;
using vf::u64;
using bytes = std::vector<std::uint8_t>;

namespace {

struct Expect {
  icubaby::encoding enc = icubaby::encoding::utf8;
  std::u32string cps;
  bool ok = true;
  bool extra_fffd_allowed = false;  // pending surrogate and cut-off unit may be one or two U+FFFD
  bool cut = false;  // ends within a code unit or a code point
};

bool starts (bytes const& b, std::initializer_list<int> p) {
  if (b.size () < p.size ()) {
    return false;
  }
  std::size_t i = 0;
  for (int const x : p) {
    if (b[i++] != x) {
      return false;
    }
  }
  return true;
}

Expect expect (bytes const& b) {
  Expect e;
  auto tail16 = [&] (bool be) {
    std::vector<std::uint16_t> u;
    std::size_t i = 2;
    for (; i + 1 < b.size (); i += 2) {
      u.push_back (static_cast<std::uint16_t> (be ? b[i] << 8 | b[i + 1] : b[i + 1] << 8 | b[i]));
    }
    auto const d = utf::decode16 (u);
    e.cps = d.cps;
    e.ok = d.ok;
    e.cut = d.partial || i < b.size ();
    if (i < b.size ()) {
      e.ok = false;
      if (d.partial) {
        e.extra_fffd_allowed = true;  // cps already ends with one U+FFFD for the surrogate
      } else {
        e.cps += char32_t{0xFFFD};
      }
    }
  };
  auto tail32 = [&] (bool be) {
    std::vector<std::uint32_t> u;
    std::size_t i = 4;
    for (; i + 3 < b.size (); i += 4) {
      std::uint32_t v = 0;
      for (std::size_t k = 0; k < 4; ++k) {
        v = v << 8 | b[be ? i + k : i + 3 - k];
      }
      u.push_back (v);
    }
    auto const d = utf::decode32 (u);
    e.cps = d.cps;
    e.ok = d.ok;
    e.cut = i < b.size ();
    if (i < b.size ()) {
      e.ok = false;
      e.cps += char32_t{0xFFFD};
    }
  };
  if (starts (b, {0xFF, 0xFE, 0, 0})) {
    e.enc = icubaby::encoding::utf32le;
    tail32 (false);
  } else if (starts (b, {0, 0, 0xFE, 0xFF})) {
    e.enc = icubaby::encoding::utf32be;
    tail32 (true);
  } else if (starts (b, {0xFF, 0xFE})) {
    e.enc = icubaby::encoding::utf16le;
    tail16 (false);
  } else if (starts (b, {0xFE, 0xFF})) {
    e.enc = icubaby::encoding::utf16be;
    tail16 (true);
  } else {
    bytes const body{b.begin () + (starts (b, {0xEF, 0xBB, 0xBF}) ? 3 : 0), b.end ()};
    auto const d = utf::decode8 (body);
    e.cps = d.cps;
    e.ok = d.ok;
    e.cut = d.partial;
  }
  return e;
}

char const* enc_name (icubaby::encoding e) {
  switch (e) {
  case icubaby::encoding::unknown: return "unknown";
  case icubaby::encoding::utf8: return "utf8";
  case icubaby::encoding::utf16be: return "utf16be";
  case icubaby::encoding::utf16le: return "utf16le";
  case icubaby::encoding::utf32be: return "utf32be";
  case icubaby::encoding::utf32le: return "utf32le";
  }
  return "?";
}

template <typename To> void one (Case& c, bytes const& b) {
  auto e = expect (b);
  std::string const key = std::string{"to"} + name<To> ();
  auto ctx = [&] { return key + " bytes " + show (b) + " (" + enc_name (e.enc) + "): "; };
  icubaby::transcoder<std::byte, To> t;
  std::vector<To> out;
  auto it = std::back_inserter (out);
  auto committed = icubaby::encoding::unknown;
  for (auto const x : b) {
    it = t (static_cast<std::byte> (x), it);
    auto const now = t.selected_encoding ();
    if (committed != icubaby::encoding::unknown && now != committed) {
      c.fail (key + "-enc-changed", ctx () + "selected encoding changed from " + enc_name (committed) + " to " + enc_name (now));
    }
    if (now != icubaby::encoding::unknown && now != e.enc) {
      c.fail (key + "-enc", ctx () + "selected " + enc_name (now));
    }
    committed = now;
  }
  if (committed != icubaby::encoding::unknown && t.partial () != e.cut) {
    c.fail (key + "-partial", ctx () + "partial is " + (t.partial () ? "true" : "false"));
  }
  (void)t.end_cp (it);
  if (t.partial ()) {
    c.fail (key + "-partial-after-end", ctx () + "partial after the end was signalled");
  }
  if (auto const n = out.size (); true) {
    it = t.end_cp (it);
    if (out.size () != n) {
      c.fail (key + "-end-twice", ctx () + "signalling the end again produces output");
    }
  }
  units<To> got;
  for (auto const u : out) {
    got.push_back (static_cast<unit_t<To>> (u));
  }
  bool good = got == encode<To> (e.cps);
  if (!good && e.extra_fffd_allowed) {
    good = got == encode<To> (e.cps + char32_t{0xFFFD});
  }
  if (!good) {
    c.fail (key, ctx () + "got " + show (got) + " want " + show (encode<To> (e.cps)));
  }
  if (t.well_formed () != e.ok) {
    c.fail (key + "-wf", ctx () + "well_formed is " + (t.well_formed () ? "true" : "false"));
  }
  if (!b.empty () && t.selected_encoding () != e.enc) {
    c.fail (key + "-final-enc", ctx () + "finally selected " + enc_name (t.selected_encoding ()));
  }
  // Through the output iterator, with the transcoder copied on the way and both copies continuing.
  {
    icubaby::transcoder<std::byte, To> t1;
    std::vector<To> out1;
    std::size_t const cut = c.rng.below (b.size () + 1);
    for (std::size_t i = 0; i < cut; ++i) {
      (void)t1 (static_cast<std::byte> (b[i]), std::back_inserter (out1));
    }
    icubaby::transcoder<std::byte, To> t2;
    if (c.rng.chance (1, 2)) {  // assign over one in another state
      for (auto n = c.rng.below (5); n > 0; --n) {
        std::vector<To> ignored;
        (void)t2 (static_cast<std::byte> (c.rng.chance (1, 2) ? 0xFE + c.rng.below (2) : c.rng.below (256)), std::back_inserter (ignored));
      }
    }
    t2 = t1;
    auto out2 = out1;
    auto i1 = icubaby::iterator{&t1, std::back_inserter (out1)};
    auto i2 = icubaby::iterator{&t2, std::back_inserter (out2)};
    for (std::size_t i = cut; i < b.size (); ++i) {
      *i1++ = static_cast<std::byte> (b[i]);
      *i2 = static_cast<std::byte> (b[i]);
      ++i2;
    }
    (void)t1.end_cp (i1);
    (void)t2.end_cp (i2);
    for (auto const* const o : {&out1, &out2}) {
      if (*o != out) {
        c.fail (key + "-copied", ctx () + "gives something else when written through an output iterator, " +
                                     (o == &out1 ? "copied from" : "as a copy made") + " after " + std::to_string (cut) + " bytes");
      }
    }
    if (t1.well_formed () != e.ok || t2.well_formed () != e.ok || t2.selected_encoding () != t1.selected_encoding ()) {
      c.fail (key + "-copied-state", ctx () + "a copy made after " + std::to_string (cut) + " bytes ends in another state");
    }
  }
  c.tally (enc_name (e.enc));
}
void all (Case& c, bytes const& b) {
  c.note (show (b));
  one<c8> (c, b);
  one<char16_t> (c, b);
  one<char32_t> (c, b);
  c.distinct (vf::hash_bytes (b.data (), b.size (), b.size ()));
  c.sample ([&] { return show (b); });
}

// every string over the bytes that occur in byte order marks plus neighbours, up to a length
constexpr std::uint8_t bom_bytes[] = {0x00, 0xFE, 0xFF, 0xEF, 0xBB, 0xBF, 0x41, 0xD8, 0xC3};
constexpr u64 nb = std::size (bom_bytes);
template <unsigned L> void enum_bom (Case& c) {
  bytes b;
  u64 i = c.idx;
  for (unsigned k = 0; k < L; ++k) {
    b.push_back (bom_bytes[i % nb]);
    i /= nb;
  }
  all (c, b);
}
constexpr u64 ipow (u64 b, unsigned e) {
  u64 r = 1;
  while (e-- > 0) {
    r *= b;
  }
  return r;
}
void random_stream (Case& c) { all (c, byte_stream (c.rng)); }
// a mark followed by every possible 16-bit unit pair of bytes
void after_bom (Case& c) {
  static bytes const boms[] = {{0xEF, 0xBB, 0xBF}, {0xFE, 0xFF}, {0xFF, 0xFE}, {0, 0, 0xFE, 0xFF}, {0xFF, 0xFE, 0, 0}, {}};
  auto b = boms[c.idx / 65536];
  b.push_back (static_cast<std::uint8_t> (c.idx >> 8));
  b.push_back (static_cast<std::uint8_t> (c.idx));
  if (c.idx % 3 == 0) {
    b.push_back (0x41);
    b.push_back (0x42);
  }
  all (c, b);
}
}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {
    {"bom-0", 1, 1, enum_bom<0>},
    {"bom-1", ipow (nb, 1), ipow (nb, 1), enum_bom<1>},
    {"bom-2", ipow (nb, 2), ipow (nb, 2), enum_bom<2>},
    {"bom-3", ipow (nb, 3), ipow (nb, 3), enum_bom<3>},
    {"bom-4", ipow (nb, 4), ipow (nb, 4), enum_bom<4>},
    {"bom-5", ipow (nb, 5), ipow (nb, 5), enum_bom<5>},
    {"bom-6", ipow (nb, 6), ipow (nb, 6), enum_bom<6>},
    {"bom-7", 0, ipow (nb, 7), enum_bom<7>},
    {"after-bom", 6 * 65536, 6 * 65536, after_bom},
    {"streams", 500000, 20000000, random_stream},
  };
  return r.main (argc, argv);
}
