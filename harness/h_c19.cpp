// C19: the lazy view yields what the push transcoder yields.
#include "utf_common.hpp"

#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <ranges>
#include <sstream>

using namespace uc;
using vf::Case;
using vf::u64;

namespace {

template <typename From, typename To, typename Range>
void via (Case& c, Range const& src, units<To> const& want, bool want_ok, units<From> const& in, char const* how, bool modify_tail = false) {
  (void)modify_tail;
  auto const view = src | icubaby::views::transcode<From, To>;
  std::string const key = std::string{name<From> ()} + "to" + name<To> ();
  auto ctx = [&] { return key + " via " + how + " input " + show (in) + ": "; };
  u64 const limit = in.size () * 8 + 16;
  for (int pass = 0; pass < 2; ++pass) {
    units<To> got;
    u64 n = 0;
    auto const last = view.end ();
    auto const style = c.rng.below (3);
    for (auto it = view.begin (); it != last;) {
      if (++n > limit) {
        break;
      }
      got.push_back (static_cast<unit_t<To>> (*it));
      if (style == 2 && static_cast<unit_t<To>> (*it) != got.back ()) {
        c.fail (key + "-reread", ctx () + "a second dereference differs");
      }
      if (style == 0) {
        ++it;
      } else {
        it++;
      }
    }
    if (n > limit) {
      c.fail (key + "-endless", ctx () + "view does not end");
      return;
    }
    if (got != want) {
      c.fail (key, ctx () + "pass " + std::to_string (pass) + " got " + show (got) + " want " + show (want));
      return;
    }
    if (view.well_formed () != want_ok) {
      c.fail (key + "-wf", ctx () + "view well_formed is " + (view.well_formed () ? "true" : "false"));
    }
    // what has been found out about the text stays known when its beginning is looked at again
    auto it = view.begin ();
    for (std::size_t i = got.empty () ? 0 : in.size () % got.size (); i > 0; --i) {
      ++it;
    }
    if (view.well_formed () != want_ok) {
      c.fail (key + "-wf-later", ctx () + "view well_formed becomes " + (view.well_formed () ? "true" : "false") + " while the text is read again");
    }
  }
}

// A source that can be read once: copies of an iterator share the reading position, as those of a stream do.
template <typename From> class Once {
public:
  using iterator_concept = std::input_iterator_tag;
  using iterator_category = std::input_iterator_tag;
  using value_type = From;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = From;
  struct Source {
    std::vector<From> units;
    std::size_t at = 0;
    bool overrun = false;
  };
  Once () = default;
  explicit Once (Source* const s) : source_{s} {}
  From operator* () const {
    if (done ()) {
      if (source_ != nullptr) {
        source_->overrun = true;
      }
      return From{};
    }
    return source_->units[source_->at];
  }
  Once& operator++ () {
    if (done ()) {
      if (source_ != nullptr) {
        source_->overrun = true;
      }
    } else {
      ++source_->at;
    }
    return *this;
  }
  void operator++ (int) { ++*this; }
  friend bool operator== (Once const& a, Once const& b) { return a.done () == b.done (); }
  friend bool operator== (Once const& a, std::default_sentinel_t) { return a.done (); }

private:
  bool done () const { return source_ == nullptr || source_->at >= source_->units.size (); }
  Source* source_ = nullptr;
};

template <typename From, typename To, typename Range>
void once (Case& c, Range const& src, units<To> const& want, bool want_ok, units<From> const& in, char const* how) {
  auto const view = src | icubaby::views::transcode<From, To>;
  std::string const key = std::string{name<From> ()} + "to" + name<To> () + "-once";
  units<To> got;
  u64 const limit = in.size () * 8 + 16;
  for (auto const u : view) {
    got.push_back (static_cast<unit_t<To>> (u));
    if (got.size () > limit) {
      break;
    }
  }
  c.tally ("single-pass");
  if (got != want || view.well_formed () != want_ok) {
    c.fail (key, key + " from a " + how + ", input " + show (in) + ": got " + show (got) + " want " + show (want) +
                     (view.well_formed () != want_ok ? " and well_formed is wrong" : ""));
  }
}
template <typename From, typename To> void read_once (Case& c, std::vector<From> const& v, units<To> const& want, bool want_ok, units<From> const& in) {
  using It = Once<From>;
  auto const which = c.rng.below (sizeof (From) == 1 ? 3U : 2U);
  if (which == 2) {
    std::istringstream is{std::string{reinterpret_cast<char const*> (v.data ()), v.size ()}};
    using Buf = std::istreambuf_iterator<char>;
    once<From, To> (c, std::ranges::subrange{Buf{is}, Buf{}} | std::views::transform ([] (char ch) { return static_cast<From> (static_cast<unsigned char> (ch)); }),
                    want, want_ok, in, "stream buffer");
    return;
  }
  typename It::Source source{v, 0, false};
  if (which == 0) {
    once<From, To> (c, std::ranges::subrange{It{&source}, It{}}, want, want_ok, in, "common single-pass range");
  } else {
    once<From, To> (c, std::ranges::subrange{It{&source}, std::default_sentinel}, want, want_ok, in, "single-pass range");
  }
  if (source.overrun) {
    c.fail ("overrun", "a single-pass source is read past its end: " + show (in));
  }
}

// Iterators kept at many positions, copied, compared and advanced in any order.
template <typename From, typename To, typename Range>
void walk (Case& c, Range const& src, units<To> const& want, units<From> const& in, char const* how) {
  auto const view = src | icubaby::views::transcode<From, To>;
  auto const end = view.end ();
  std::string const key = std::string{name<From> ()} + "to" + name<To> () + "-walk";
  auto ctx = [&] { return key + " over " + how + " input " + show (in) + ": "; };
  struct Kept {
    decltype (view.begin ()) it;
    std::size_t at;
  };
  std::vector<Kept> pool (4, Kept{view.begin (), 0});
  for (unsigned step = 0; step < 24; ++step) {
    auto& a = pool[c.rng.below (pool.size ())];
    auto& b = pool[c.rng.below (pool.size ())];
    bool const more = a.at < want.size ();
    switch (c.rng.below (6)) {
    case 0: b = Kept{a}; break;
    case 1:
      if (more) {
        auto& r = ++a.it;
        ++a.at;
        if (&r != &a.it) {
          c.fail (key + "-ref", ctx () + "pre-increment returns another object");
        }
      }
      break;
    case 2:
      if (more) {
        Kept before{a.it++, a.at};
        ++a.at;
        b = std::move (before);
      }
      break;
    case 3:
      if (c.rng.chance (1, 4)) {
        a = Kept{view.begin (), 0};
      }
      break;
    case 4:
      for (auto n = c.rng.below (5); n > 0 && a.at < want.size (); --n) {
        ++a.it;
        ++a.at;
      }
      break;
    default:
      if (a.at <= b.at) {
        auto const d = std::ranges::distance (a.it, b.it);
        if (d != static_cast<std::ptrdiff_t> (b.at - a.at)) {
          c.fail (key + "-distance", ctx () + "distance between " + std::to_string (a.at) + " and " + std::to_string (b.at) + " is " + std::to_string (d));
          return;
        }
      }
      break;
    }
    for (auto const& x : pool) {
      if ((x.it == end) != (x.at == want.size ())) {
        c.fail (key + "-end", ctx () + "iterator at " + std::to_string (x.at) + " of " + std::to_string (want.size ()) + " compares wrongly with the end");
        return;
      }
      if (x.at < want.size () && static_cast<unit_t<To>> (*x.it) != want[x.at]) {
        c.fail (key + "-value", ctx () + "iterator at " + std::to_string (x.at) + " gives another unit");
        return;
      }
      if ((a.it == x.it) != (a.at == x.at) || (a.it != x.it) == (a.at == x.at)) {
        c.fail (key + "-equal", ctx () + "iterators at " + std::to_string (a.at) + " and " + std::to_string (x.at) +
                                    (a.at == x.at ? " compare unequal" : " compare equal"));
        return;
      }
    }
    c.tally ("walk-steps");
  }
}

template <typename From, typename To> void one (Case& c, units<From> const& in) {
  auto const p = push<From, To> (in);
  std::vector<From> v;
  for (auto const u : in) {
    v.push_back (static_cast<From> (u));
  }
  via<From, To> (c, v, p.out, p.ok, in, "vector");
  read_once<From, To> (c, v, p.out, p.ok, in);
  if (c.rng.chance (1, 2)) {
    walk<From, To> (c, v, p.out, in, "vector");
  } else if (c.rng.chance (1, 2)) {
    std::list<From> const l (v.begin (), v.end ());
    walk<From, To> (c, std::ranges::subrange{std::counted_iterator{l.begin (), static_cast<std::ptrdiff_t> (l.size ())}, std::default_sentinel}, p.out, in,
                    "counted list");
  } else {
    walk<From, To> (c, std::forward_list<From> (v.begin (), v.end ()), p.out, in, "forward_list");
  }
  switch (c.rng.below (4)) {
  case 0: {
    std::list<From> const l (v.begin (), v.end ());
    via<From, To> (c, l, p.out, p.ok, in, "list");
    break;
  }
  case 1: {
    std::forward_list<From> const l (v.begin (), v.end ());
    via<From, To> (c, l, p.out, p.ok, in, "forward_list");
    break;
  }
  case 2: {  // non-common range: an extra unit stops a counted view
    auto padded = v;
    padded.push_back (From{});
    std::list<From> const l (padded.begin (), padded.end ());
    auto const n = static_cast<std::ptrdiff_t> (v.size ());
    via<From, To> (c, std::ranges::subrange{std::counted_iterator{l.begin (), n}, std::default_sentinel}, p.out, p.ok, in,
                   "counted list");
    break;
  }
  default: {
    auto const t = v | std::views::transform ([] (From x) { return x; });
    via<From, To> (c, t, p.out, p.ok, in, "transform");
    break;
  }
  }
  c.tally (p.ok ? "well-formed" : "ill-formed");
  if (p.out.empty () && !in.empty ()) {
    c.tally ("no-output");
  }
}
template <typename From> void all_to (Case& c, units<From> const& in) {
  c.note (std::string{name<From> ()} + show (in));
  one<From, c8> (c, in);
  one<From, char16_t> (c, in);
  one<From, char32_t> (c, in);
  c.distinct (vf::hash_bytes (in.data (), in.size () * sizeof (unit_t<From>), sizeof (From) + (std::is_same_v<From, std::byte> ? 64 : 0)));
  c.sample ([&] { return std::string{name<From> ()} + " " + show (in); });
}
template <unsigned L> void classes8 (Case& c) { all_to<c8> (c, nth_units<c8> (c.idx, L)); }
template <unsigned L> void classes16 (Case& c) { all_to<char16_t> (c, nth_units<char16_t> (c.idx, L)); }
template <unsigned L> void classes32 (Case& c) { all_to<char32_t> (c, nth_units<char32_t> (c.idx, L)); }
constexpr std::uint8_t bom_bytes[] = {0x00, 0xFE, 0xFF, 0xEF, 0xBB, 0xBF, 0x41, 0xD8, 0xC3};
constexpr u64 nb = std::size (bom_bytes);
template <unsigned L> void bom (Case& c) {
  std::vector<std::uint8_t> b;
  u64 i = c.idx;
  for (unsigned k = 0; k < L; ++k) {
    b.push_back (bom_bytes[i % nb]);
    i /= nb;
  }
  all_to<std::byte> (c, b);
}
void random_damaged (Case& c) {
  switch (c.rng.below (4)) {
  case 0: all_to<c8> (c, damaged<c8> (c.rng)); break;
  case 1: all_to<char16_t> (c, damaged<char16_t> (c.rng)); break;
  case 2: all_to<char32_t> (c, damaged<char32_t> (c.rng)); break;
  default: all_to<std::byte> (c, byte_stream (c.rng)); break;
  }
}
constexpr u64 ipow (u64 b, unsigned e) {
  u64 r = 1;
  while (e-- > 0) {
    r *= b;
  }
  return r;
}
}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  constexpr u64 n8 = std::size (class8), n16 = std::size (class16), n32 = std::size (class32);
  r.phases = {
    {"utf8-0", 1, 1, classes8<0>},
    {"utf8-1", n8, n8, classes8<1>},
    {"utf8-2", ipow (n8, 2), ipow (n8, 2), classes8<2>},
    {"utf8-3", ipow (n8, 3), ipow (n8, 3), classes8<3>},
    {"utf8-4", 0, ipow (n8, 4), classes8<4>},
    {"utf16-0", 1, 1, classes16<0>},
    {"utf16-1", n16, n16, classes16<1>},
    {"utf16-2", ipow (n16, 2), ipow (n16, 2), classes16<2>},
    {"utf16-3", ipow (n16, 3), ipow (n16, 3), classes16<3>},
    {"utf16-4", 0, ipow (n16, 4), classes16<4>},
    {"utf32-0", 1, 1, classes32<0>},
    {"utf32-2", ipow (n32, 2), ipow (n32, 2), classes32<2>},
    {"utf32-3", ipow (n32, 3), ipow (n32, 3), classes32<3>},
    {"bytes-0", 1, 1, bom<0>},
    {"bytes-1", ipow (nb, 1), ipow (nb, 1), bom<1>},
    {"bytes-2", ipow (nb, 2), ipow (nb, 2), bom<2>},
    {"bytes-3", ipow (nb, 3), ipow (nb, 3), bom<3>},
    {"bytes-4", ipow (nb, 4), ipow (nb, 4), bom<4>},
    {"bytes-5", ipow (nb, 5), ipow (nb, 5), bom<5>},
    {"bytes-6", 0, ipow (nb, 6), bom<6>},
    {"damaged", 200000, 8000000, random_damaged},
  };
  return r.main (argc, argv);
}
