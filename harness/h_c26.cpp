// C26: counting and locating code points, and the classification of code units behind it.
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <sstream>

#include "utf_common.hpp"
#include "gen_puny.hpp"

namespace {
using vf::Case;
using vf::u64;
using uc::c8;

template <typename T> struct Boxed {
  int before = 0;
  T unit{};
  T get () const { return unit; }
};

// A single-pass range which counts what is read from it.
template <typename T> struct Once {
  std::vector<T> const* v;
  std::size_t* reads;
  struct It {
    using iterator_concept = std::input_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T const*;
    using reference = T;
    std::vector<T> const* v = nullptr;
    std::size_t at = 0;
    std::size_t* reads = nullptr;
    T operator* () const {
      if (at >= v->size ()) {
        std::abort ();
      }
      ++*reads;
      return (*v)[at];
    }
    It& operator++ () {
      if (at >= v->size ()) {
        std::abort ();
      }
      ++at;
      return *this;
    }
    void operator++ (int) { ++*this; }
    friend bool operator== (It const& x, std::default_sentinel_t) { return x.at == x.v->size (); }
  };
  It begin () const { return {v, 0, reads}; }
  std::default_sentinel_t end () const { return {}; }
};

template <typename T> bool starts (std::uint32_t u) {
  if constexpr (std::is_same_v<T, c8>) {
    return u < 0x80 || u > 0xBF;
  } else if constexpr (std::is_same_v<T, char16_t>) {
    return u < 0xDC00 || u > 0xDFFF;
  } else {
    return u < 0xD800 || (u > 0xDFFF && u <= 0x10FFFF);
  }
}

template <typename T> std::vector<T> typed (uc::units<T> const& u) {
  std::vector<T> v;
  for (auto const x : u) {
    v.push_back (static_cast<T> (x));
  }
  return v;
}

template <typename T> void well_formed (Case& c, std::u32string const& s) {
  auto const v = typed<T> (uc::encode<T> (s));
  auto const n = static_cast<std::ptrdiff_t> (s.size ());
  std::vector<std::size_t> at;  // where each code point starts
  std::size_t off = 0;
  for (auto const cp : s) {
    at.push_back (off);
    off += uc::encode<T> (std::u32string (1, cp)).size ();
  }
  at.push_back (off);
  auto bad = [&] (char const* what) {
    c.fail (std::string{what} + uc::name<T> (), std::string{what} + " of UTF-" + uc::name<T> () + " " + uc::show (v));
  };
  std::vector<Boxed<T>> boxed;
  for (auto const x : v) {
    boxed.push_back ({1, x});
  }
  std::list<T> const l{v.begin (), v.end ()};
  std::forward_list<T> const fl{v.begin (), v.end ()};
  std::deque<T> const d{v.begin (), v.end ()};
  // counting
  std::size_t reads = 0;
  Once<T> const once{&v, &reads};
  if (icubaby::length (v) != n || icubaby::length (v.begin (), v.end ()) != n || icubaby::length (v.data (), v.data () + v.size ()) != n) {
    bad ("length");
  }
  if (icubaby::length (l) != n || icubaby::length (fl.begin (), fl.end ()) != n || icubaby::length (d) != n) {
    bad ("length in lists");
  }
  if (icubaby::length (once) != n || reads != v.size ()) {
    bad ("length in a single pass");
  }
  auto masked = v;  // a projection of units
  for (auto& x : masked) {
    x = static_cast<T> (x ^ static_cast<T> (0x55));
  }
  auto const unmask = [] (T x) { return static_cast<T> (x ^ static_cast<T> (0x55)); };
  if (icubaby::length (masked, unmask) != n || icubaby::length (masked.begin (), masked.end (), unmask) != n) {
    bad ("length with a projection");
  }
  if (icubaby::length (std::counted_iterator{l.begin (), static_cast<std::ptrdiff_t> (v.size ())}, std::default_sentinel) != n) {
    bad ("length up to a sentinel");
  }
  if (icubaby::length (v | std::views::reverse) != n) {
    bad ("length of the reversed units");
  }
  // locating
  for (std::size_t k = 0; k <= s.size () + 2; ++k) {
    auto const want = static_cast<std::ptrdiff_t> (at[std::min (k, s.size ())]);
    if (icubaby::index (v, k) != v.begin () + want || icubaby::index (v.begin (), v.end (), k) != v.begin () + want ||
        icubaby::index (v.data (), v.data () + v.size (), k) != v.data () + want) {
      bad ("index");
      return;
    }
    if (icubaby::index (l, k) != std::next (l.begin (), want) || icubaby::index (fl.begin (), fl.end (), k) != std::next (fl.begin (), want) ||
        icubaby::index (d, k) != d.begin () + want) {
      bad ("index in lists");
      return;
    }
    if (icubaby::index (boxed, k, &Boxed<T>::unit) != boxed.begin () + want || icubaby::index (boxed.begin (), boxed.end (), k, &Boxed<T>::get) != boxed.begin () + want) {
      bad ("index with a projection");
      return;
    }
    if (icubaby::index (std::counted_iterator{l.begin (), static_cast<std::ptrdiff_t> (v.size ())}, std::default_sentinel, k).count () !=
        static_cast<std::ptrdiff_t> (v.size ()) - want) {
      bad ("index up to a sentinel");
      return;
    }
    if (icubaby::index (once.begin (), once.end (), k).at != static_cast<std::size_t> (want)) {
      bad ("index in a single pass");
      return;
    }
    c.tally ("positions");
  }
  // from any code point on
  if (!s.empty ()) {
    auto const k = c.rng.below (s.size ());
    auto const m = c.rng.below (s.size () - k + 1);
    auto const from = v.begin () + static_cast<std::ptrdiff_t> (at[k]);
    if (icubaby::length (from, v.end ()) != n - static_cast<std::ptrdiff_t> (k) ||
        icubaby::length (v.begin (), from) != static_cast<std::ptrdiff_t> (k) ||
        icubaby::index (from, v.end (), m) != v.begin () + static_cast<std::ptrdiff_t> (at[k + m])) {
      bad ("length and index of a part");
    }
  }
  c.tally ("sequences");
  if (v.size () != s.size ()) {
    c.tally ("sequences-with-multi-unit-code-points");
  }
  if (!v.empty ()) {
    c.distinct (vf::hash_bytes (v.data (), v.size () * sizeof (T)) + sizeof (T));
  }
  c.sample ([&] { return std::string{"UTF-"} + uc::name<T> () + " " + uc::show (v); });
}
// Anything: stays inside the range and agrees with the classification.
template <typename T> void ill_formed (Case& c) {
  auto const u = uc::damaged<T> (c.rng);
  auto const v = typed<T> (u);
  auto const n = icubaby::length (v);
  if (n < 0 || n > static_cast<std::ptrdiff_t> (v.size ()) || n != std::count_if (v.begin (), v.end (), [] (T x) { return icubaby::is_code_point_start (x); })) {
    c.fail ("ill-formed-length", std::string{"length of UTF-"} + uc::name<T> () + " " + uc::show (v) + " is " + std::to_string (n));
  }
  std::ptrdiff_t seen = 0;
  for (std::size_t i = 0; i <= v.size (); ++i) {
    if (i == v.size () || icubaby::is_code_point_start (v[i])) {
      if (icubaby::index (v, static_cast<std::size_t> (seen)) != v.begin () + static_cast<std::ptrdiff_t> (i)) {
        c.fail ("ill-formed-index", std::string{"index "} + std::to_string (seen) + " of UTF-" + uc::name<T> () + " " + uc::show (v));
        return;
      }
      ++seen;
    }
  }
  c.tally ("ill-formed");
}

void random_text (Case& c) {
  auto const s = c.rng.chance (1, 2) ? uc::random_text (c.rng, 20) : gpu::text (c.rng, 12, false);
  c.note ("text");
  std::u32string ok;
  for (auto const x : s) {
    if (starts<char32_t> (x)) {
      ok += x;
    }
  }
  well_formed<c8> (c, ok);
  well_formed<char16_t> (c, ok);
  well_formed<char32_t> (c, ok);
}
void damaged (Case& c) {
  ill_formed<c8> (c);
  ill_formed<char16_t> (c);
  ill_formed<char32_t> (c);
}
// Every code point, 0x400 per case, alone and between others.
void every_code_point (Case& c) {
  for (std::uint32_t k = 0; k < 0x400; ++k) {
    auto const cp = static_cast<std::uint32_t> (c.idx * 0x400 + k);
    bool const scalar = starts<char32_t> (cp);
    auto const hi = cp >= 0xD800 && cp < 0xDC00;
    auto const lo = cp >= 0xDC00 && cp < 0xE000;
    if (icubaby::is_code_point_start (static_cast<char32_t> (cp)) != scalar || icubaby::is_high_surrogate (cp) != hi ||
        icubaby::is_low_surrogate (cp) != lo || icubaby::is_surrogate (cp) != (hi || lo)) {
      c.fail ("classification", "classification of " + std::to_string (cp));
    }
    if (cp < 0x10000 && icubaby::is_code_point_start (static_cast<char16_t> (cp)) != starts<char16_t> (cp)) {
      c.fail ("classification-16", "UTF-16 unit " + std::to_string (cp));
    }
    if (cp < 0x100 && icubaby::is_code_point_start (static_cast<c8> (cp)) != starts<c8> (cp)) {
      c.fail ("classification-8", "UTF-8 unit " + std::to_string (cp));
    }
    c.tally ("code-points");
    if (!scalar) {
      continue;
    }
    std::u32string const alone (1, static_cast<char32_t> (cp));
    auto one = [&]<typename T> (T) {
      auto const u = typed<T> (uc::encode<T> (alone));
      auto three = u;
      three.insert (three.begin (), T{'a'});
      three.insert (three.end (), u.begin (), u.end ());
      if (icubaby::length (u) != 1 || icubaby::length (three) != 3 || icubaby::index (three, 1) != three.begin () + 1 ||
          icubaby::index (three, 2) != three.begin () + 1 + static_cast<std::ptrdiff_t> (u.size ()) || icubaby::index (three, 3) != three.end () ||
          u.size () > icubaby::longest_sequence_v<T>) {
        c.fail ("code-point", "code point " + std::to_string (cp) + " in UTF-" + uc::name<T> ());
      }
    };
    one (c8{});
    one (char16_t{});
    one (char32_t{});
  }
  c.distinct (c.idx + 0x10000000);
}
// 32-bit values beyond Unicode
void beyond (Case& c) {
  for (int k = 0; k < 64; ++k) {
    auto const x = static_cast<std::uint32_t> (c.rng.next ()) >> c.rng.below (16);
    if (icubaby::is_code_point_start (static_cast<char32_t> (x)) != starts<char32_t> (x) || icubaby::is_surrogate (x) != (x >= 0xD800 && x <= 0xDFFF)) {
      c.fail ("classification", "classification of " + std::to_string (x));
    }
    c.tally (x > 0x10FFFF ? "beyond-unicode" : "within-unicode");
  }
}
// Long sequences: counts beyond 8 and 16 bits.
void longer (Case& c) {
  static constexpr std::size_t sizes[] = {200, 255, 256, 257, 300, 65535, 65536, 65537, 70000};
  auto const n = c.rng.pick (sizes);
  std::u32string s;
  static constexpr char32_t one[] = {'a', 0xE9, 0x20AC, 0x1F600};
  for (std::size_t i = 0; i < n; ++i) {
    s += c.rng.pick (one);
  }
  auto run = [&]<typename T> (T) {
    auto const v = typed<T> (uc::encode<T> (s));
    if (icubaby::length (v) != static_cast<std::ptrdiff_t> (n)) {
      c.fail ("long-length", "length of " + std::to_string (n) + " code points in UTF-" + uc::name<T> () + " is " + std::to_string (icubaby::length (v)));
    }
    for (int k = 0; k < 4; ++k) {
      auto const p = k == 0 ? n : k == 1 ? n - 1 : c.rng.below (n);
      std::size_t const want = uc::encode<T> (s.substr (0, p)).size ();
      if (static_cast<std::size_t> (icubaby::index (v, p) - v.begin ()) != want) {
        c.fail ("long-index", "index " + std::to_string (p) + " among " + std::to_string (n) + " code points in UTF-" + uc::name<T> ());
      }
    }
    c.tally ("long-sequences");
  };
  run (c8{});
  run (char16_t{});
  run (char32_t{});
}
}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"every-code-point", 0x110000 / 0x400, 0x110000 / 0x400, every_code_point},
              {"beyond", 1000, 1000000, beyond},
              {"text", 20000, 2000000, random_text},
              {"damaged", 20000, 2000000, damaged},
              {"long", 60, 2000, longer}};
  return r.main (argc, argv);
}
