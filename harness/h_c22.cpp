// C22: find_last and starts_with on every kind of range, with iterators that police their bounds.
#include <cassert>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <numeric>
#include <span>
#include <sstream>

#include "gen_uri.hpp"
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"
#include "vf.hpp"

using gen::sv;
using vf::u64;

namespace {

struct Broken : std::exception {
  char const* what () const noexcept override { return "an iterator was used outside its range"; }
};

// Bounds-checked iterator over [lo,hi); Cat selects its category.
template <typename T, typename Cat> class Guard {
public:
  using iterator_concept = Cat;
  using iterator_category = std::conditional_t<std::is_same_v<Cat, std::input_iterator_tag>, std::input_iterator_tag, Cat>;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  Guard () = default;
  Guard (T const* p, T const* lo, T const* hi) : p_{p}, lo_{lo}, hi_{hi} {}
  reference operator* () const {
    if (p_ < lo_ || p_ >= hi_) {
      throw Broken{};
    }
    return *p_;
  }
  pointer operator-> () const { return &**this; }
  Guard& operator++ () {
    if (p_ >= hi_) {
      throw Broken{};
    }
    ++p_;
    return *this;
  }
  Guard operator++ (int) {
    auto o = *this;
    ++*this;
    return o;
  }
  Guard& operator-- ()
    requires std::derived_from<Cat, std::bidirectional_iterator_tag>
  {
    if (p_ <= lo_) {
      throw Broken{};
    }
    --p_;
    return *this;
  }
  Guard operator-- (int)
    requires std::derived_from<Cat, std::bidirectional_iterator_tag>
  {
    auto o = *this;
    --*this;
    return o;
  }
  bool operator== (Guard const& o) const { return p_ == o.p_; }
  std::ptrdiff_t index () const { return p_ - lo_; }

private:
  T const* p_ = nullptr;
  T const* lo_ = nullptr;
  T const* hi_ = nullptr;
};
// a sentinel of its own type
template <typename G> struct End {
  G e;
  friend bool operator== (G const& a, End const& b) { return a == b.e; }
};

struct Rec {
  int key = 0;
  int other = 0;
  bool operator== (Rec const&) const = default;
};

template <typename V> std::string show (V const& v) {
  std::string r = "[";
  std::size_t shown = 0;
  for (auto const& x : v) {
    if (++shown > 400) {
      r += " ... (" + std::to_string (std::size (v)) + " in all)";
      break;
    }
    r += " " + std::to_string (static_cast<long> (x));
  }
  return r + " ]";
}

template <typename R, typename It, typename S>
void expect_last (vf::Case& c, char const* what, R const& r, It first, S last, std::ptrdiff_t want, std::ptrdiff_t n, std::string const& desc) {
  auto const d = std::ranges::distance (first, r.begin ());
  bool const end_ok = r.end () == last;
  if (d != (want < 0 ? n : want) || !end_ok || (want < 0) != r.empty ()) {
    c.fail ("find_last", std::string{what} + ": " + desc + " gives a range at " + std::to_string (d) + (r.empty () ? " (empty)" : "") +
            (end_ok ? "" : " not reaching the end") + ", want " + std::to_string (want));
  }
}

void find_check (vf::Case& c, std::vector<int> const& raw, int value) {
  std::unique_ptr<int[]> const buf{new int[raw.size ()]};
  std::copy (raw.begin (), raw.end (), buf.get ());
  int const* const lo = buf.get ();
  int const* const hi = lo + raw.size ();
  auto const n = static_cast<std::ptrdiff_t> (raw.size ());
  std::ptrdiff_t want = -1;
  for (std::ptrdiff_t i = 0; i < n; ++i) {
    if (raw[static_cast<std::size_t> (i)] == value) {
      want = i;
    }
  }
  auto const desc = "last " + std::to_string (value) + " in " + show (raw);
  c.note (desc);
  auto chk = [&] (char const* what, auto const& r, auto first, auto last) { expect_last (c, what, r, first, last, want, n, desc); };

  chk ("pointers", uri::find_last (lo, hi, value), lo, hi);
  {
    std::vector<int> const v{raw};
    chk ("vector", uri::find_last (v, value), v.begin (), v.end ());
    chk ("vector-iterators", uri::find_last (v.begin (), v.end (), value), v.begin (), v.end ());
    chk ("vector-long-value", uri::find_last (v, static_cast<long> (value)), v.begin (), v.end ());
    chk ("span", uri::find_last (std::span{v}, value), std::span{v}.begin (), std::span{v}.end ());
    auto const counted = std::views::counted (v.begin (), n);
    chk ("counted", uri::find_last (counted, value), counted.begin (), counted.end ());
    auto const rev = v | std::views::reverse;
    auto const p = std::find (v.begin (), v.end (), value);
    auto const wr = p == v.end () ? -1 : n - 1 - (p - v.begin ());
    expect_last (c, "reverse", uri::find_last (rev, value), rev.begin (), rev.end (), wr, n, desc);
    auto tr = v | std::views::transform ([] (int x) { return x + 100; });
    chk ("transform", uri::find_last (tr, value + 100), tr.begin (), tr.end ());
    chk ("projection", uri::find_last (v, value * 2 + 1, [] (int x) { return x * 2 + 1; }), v.begin (), v.end ());
    chk ("projection-iterators", uri::find_last (v.begin (), v.end (), -value, std::negate<>{}), v.begin (), v.end ());
  }
  {
    std::list<int> const l{raw.begin (), raw.end ()};
    chk ("list", uri::find_last (l, value), l.begin (), l.end ());
    std::list<int> m{raw.begin (), raw.end ()};
    chk ("mutable-list", uri::find_last (m, value), m.begin (), m.end ());
    std::forward_list<int> const f{raw.begin (), raw.end ()};
    chk ("forward_list", uri::find_last (f, value), f.begin (), f.end ());
    chk ("forward-projection", uri::find_last (f, -value, std::negate<>{}), f.begin (), f.end ());
    std::deque<int> const d{raw.begin (), raw.end ()};
    chk ("deque", uri::find_last (d, value), d.begin (), d.end ());
  }
  {
    std::vector<Rec> v;
    for (auto const x : raw) {
      v.push_back ({x, static_cast<int> (v.size ())});
    }
    chk ("member", uri::find_last (v, value, &Rec::key), v.begin (), v.end ());
    std::forward_list<Rec> const f{v.begin (), v.end ()};
    chk ("forward-member", uri::find_last (f, value, &Rec::key), f.begin (), f.end ());
  }
  {
    using G = Guard<int, std::forward_iterator_tag>;
    G const b{lo, lo, hi}, e{hi, lo, hi};
    chk ("guarded-forward", uri::find_last (b, e, value), b, e);
    chk ("guarded-forward-sentinel", uri::find_last (b, End<G>{e}, value), b, e);
    auto const sub = std::ranges::subrange{b, End<G>{e}};
    chk ("guarded-forward-range", uri::find_last (sub, value), b, e);
  }
  {
    using G = Guard<int, std::bidirectional_iterator_tag>;
    G const b{lo, lo, hi}, e{hi, lo, hi};
    chk ("guarded-bidi", uri::find_last (b, e, value), b, e);
    chk ("guarded-bidi-sentinel", uri::find_last (b, End<G>{e}, value), b, e);
    chk ("guarded-bidi-projection", uri::find_last (b, e, -value, std::negate<>{}), b, e);
  }
  {
    // take_while: the range ends before the container does
    std::vector<int> v{raw};
    v.push_back (99);
    v.push_back (value);
    if (std::find (raw.begin (), raw.end (), 99) == raw.end ()) {
      auto t = v | std::views::take_while ([] (int x) { return x != 99; });
      auto const r = uri::find_last (t, value);
      expect_last (c, "take_while", r, t.begin (), t.begin () + n, want, n, desc);
    }
  }
  {
    std::string s;
    for (auto const x : raw) {
      s += static_cast<char> (x * 37);
    }
    sv const t = s;
    auto const w = t.rfind (static_cast<char> (value * 37));
    auto const r = uri::find_last (t, static_cast<char> (value * 37));
    expect_last (c, "string_view", r, t.begin (), t.end (), w == sv::npos ? -1 : static_cast<std::ptrdiff_t> (w), n, desc);
  }
  if (raw.size () == 4) {
    int arr[4];
    std::array<int, 4> a2{};
    for (std::size_t i = 0; i < 4; ++i) {
      arr[i] = a2[i] = raw[i];
    }
    chk ("array", uri::find_last (arr, value), std::begin (arr), std::end (arr));
    chk ("std::array", uri::find_last (a2, value), a2.begin (), a2.end ());
  }
  if (!std::equal (raw.begin (), raw.end (), lo, hi)) {
    c.fail ("find-modified", "find_last modified its range");
  }
  c.tally (want < 0 ? (n == 0 ? "find:empty-range" : "find:absent") : want == 0 ? "find:first" : want == n - 1 ? "find:last" : "find:middle");
  if (want >= 0) {
    c.distinct (vf::hash_bytes (raw.data (), raw.size () * sizeof (int), static_cast<u64> (value) + 7));
  }
  c.sample ([&] { return desc + " at " + std::to_string (want); });
}

void starts_check (vf::Case& c, std::vector<int> const& a, std::vector<int> const& b) {
  std::unique_ptr<int[]> const pa{new int[a.size ()]}, pb{new int[b.size ()]};
  std::copy (a.begin (), a.end (), pa.get ());
  std::copy (b.begin (), b.end (), pb.get ());
  int const *const al = pa.get (), *const ah = al + a.size (), *const bl = pb.get (), *const bh = bl + b.size ();
  bool want = b.size () <= a.size ();
  for (std::size_t i = 0; want && i < b.size (); ++i) {
    want = a[i] == b[i];
  }
  // under "difference at most one" and with sign-flipping projections
  bool near = b.size () <= a.size ();
  for (std::size_t i = 0; near && i < b.size (); ++i) {
    near = std::abs (a[i] - b[i]) <= 1;
  }
  bool less = b.size () <= a.size ();
  for (std::size_t i = 0; less && i < b.size (); ++i) {
    less = a[i] < b[i];
  }
  auto const desc = show (a) + " starts with " + show (b);
  c.note (desc);
  auto chk = [&] (char const* what, bool got, bool w) {
    if (got != w) {
      c.fail ("starts_with", std::string{what} + ": " + desc + " gives " + (got ? "true" : "false"));
    }
  };
  auto const close = [] (int x, int y) { return std::abs (x - y) <= 1; };
  chk ("pointers", uri::starts_with (al, ah, bl, bh), want);
  chk ("vectors", uri::starts_with (a, b), want);
  chk ("predicate", uri::starts_with (a, b, close), near);
  chk ("asymmetric-predicate", uri::starts_with (a, b, std::less<>{}), less);
  chk ("asymmetric-iterators", uri::starts_with (al, ah, bl, bh, std::less<>{}), less);
  chk ("projections", uri::starts_with (a, b, {}, std::negate<>{}, std::negate<>{}), want);
  chk ("projection-1", uri::starts_with (a, b | std::views::transform ([] (int x) { return x + 5; }), {}, [] (int x) { return x + 5; }), want);
  chk ("projection-2", uri::starts_with (a | std::views::transform ([] (int x) { return x + 5; }), b, std::equal_to<>{}, std::identity{}, [] (int x) { return x + 5; }), want);
  chk ("less-projections", uri::starts_with (a, b, std::less<>{}, [] (int x) { return x * 2; }, [] (int x) { return x * 2; }), less);
  {
    std::list<int> const l{a.begin (), a.end ()};
    std::forward_list<int> const f{b.begin (), b.end ()};
    chk ("list-forward_list", uri::starts_with (l, f), want);
    chk ("forward_list-list", uri::starts_with (std::forward_list<int>{a.begin (), a.end ()}, std::list<long>{b.begin (), b.end ()}), want);
    chk ("iterators", uri::starts_with (l.begin (), l.end (), f.begin (), f.end ()), want);
  }
  {
    using G = Guard<int, std::input_iterator_tag>;
    G const ab{al, al, ah}, ae{ah, al, ah}, bb{bl, bl, bh}, be{bh, bl, bh};
    chk ("guarded", uri::starts_with (ab, End<G>{ae}, bb, End<G>{be}), want);
    using F = Guard<int, std::forward_iterator_tag>;
    F const fb{al, al, ah}, fe{ah, al, ah};
    chk ("guarded-mixed", uri::starts_with (std::ranges::subrange{fb, fe}, std::ranges::subrange{bl, bh}), want);
  }
  {
    auto text = [] (std::vector<int> const& v) {
      std::string s;
      for (auto const x : v) {
        s += std::to_string (x) + " ";
      }
      return s;
    };
    std::istringstream ia{text (a)}, ib{text (b)};
    chk ("streams", uri::starts_with (std::ranges::istream_view<int> (ia), std::ranges::istream_view<int> (ib)), want);
    // no more than one element beyond the prefix is taken from the first stream
    std::istringstream ja{text (a)};
    auto va = std::ranges::istream_view<int> (ja);
    chk ("stream-range", uri::starts_with (va, b), want);
  }
  {
    std::vector<int> x{a}, y{b};
    x.push_back (99);
    y.push_back (99);
    if (std::find (a.begin (), a.end (), 99) == a.end () && std::find (b.begin (), b.end (), 99) == b.end ()) {
      auto const stop = std::views::take_while ([] (int v) { return v != 99; });
      chk ("take_while", uri::starts_with (x | stop, y | stop), want);
    }
  }
  {
    std::string s, t;
    for (auto const x : a) {
      s += static_cast<char> (x * 61);
    }
    for (auto const x : b) {
      t += static_cast<char> (x * 61);
    }
    chk ("strings", uri::starts_with (s, sv{t}), sv{s}.substr (0, t.size ()) == t);
  }
  if (!std::equal (a.begin (), a.end (), al, ah) || !std::equal (b.begin (), b.end (), bl, bh)) {
    c.fail ("starts-modified", "starts_with modified a range");
  }
  c.tally (want ? (b.empty () ? "starts:empty-prefix" : b.size () == a.size () ? "starts:equal" : "starts:prefix")
                : b.size () > a.size () ? "starts:prefix-longer" : "starts:differs");
  if (want && !b.empty ()) {
    c.distinct (vf::hash_bytes (a.data (), a.size () * sizeof (int), b.size () + 1000));
  }
  c.sample ([&] { return desc + (want ? " true" : " false"); });
}

std::vector<int> digits (std::string const& s) {
  std::vector<int> v;
  for (char const c : s) {
    v.push_back (c - '0');
  }
  return v;
}

void enum_find (vf::Case& c) { find_check (c, digits (gen::nth_string (c.idx / 3, "012")), static_cast<int> (c.idx % 3)); }
constexpr u64 pair_n = gen::count_strings (2, 5);
void enum_starts (vf::Case& c) { starts_check (c, digits (gen::nth_string (c.idx % pair_n, "01")), digits (gen::nth_string (c.idx / pair_n, "01"))); }
constexpr u64 tri_n = gen::count_strings (3, 4);
void enum_starts3 (vf::Case& c) { starts_check (c, digits (gen::nth_string (c.idx % tri_n, "035")), digits (gen::nth_string (c.idx / tri_n, "025"))); }
void random_find (vf::Case& c) {
  std::vector<int> v;
  auto const k = 1 + c.rng.below (6);
  for (u64 n = c.rng.chance (1, 20) ? c.rng.below (300) : c.rng.below (12); n > 0; --n) {
    v.push_back (static_cast<int> (c.rng.below (k)));
  }
  find_check (c, v, static_cast<int> (c.rng.below (k + 1)));
}
void random_starts (vf::Case& c) {
  std::vector<int> a, b;
  for (u64 n = c.rng.chance (1, 20) ? c.rng.below (300) : c.rng.below (10); n > 0; --n) {
    a.push_back (static_cast<int> (c.rng.below (3)));
  }
  b.assign (a.begin (), a.begin () + static_cast<std::ptrdiff_t> (c.rng.below (a.size () + 1)));
  switch (c.rng.below (4)) {
  case 0:
    if (!b.empty ()) {
      b[c.rng.below (b.size ())] = static_cast<int> (c.rng.below (4));
    }
    break;
  case 1: b.push_back (static_cast<int> (c.rng.below (3))); break;
  default: break;
  }
  starts_check (c, a, b);
}

// Ranges longer than narrow counters reach, with what matters at the counters' limits.
void large (vf::Case& c) {
  static constexpr std::size_t limits[] = {127, 255, 256, 4096, 32767, 65535, 65536, 65537, 66000};
  auto const n = c.rng.pick (limits) + c.rng.below (4);
  auto const place = [&c, n] { return c.rng.chance (1, 2) ? n - 1 - c.rng.below (3) : std::min (n - 1, c.rng.pick (limits) - 1 + c.rng.below (2)); };
  std::vector<int> a (n, 0);
  if (c.rng.chance (1, 2)) {
    if (auto const at = place (); c.rng.chance (7, 8)) {
      a[at] = 1;
      if (c.rng.chance (1, 2)) {
        a[c.rng.below (at + 1)] = 1;
      }
    }
    c.tally ("find:large");
    find_check (c, a, 1);
  } else {
    auto b = a;
    if (c.rng.chance (1, 2)) {
      b[place ()] = 1;
    }
    if (c.rng.chance (1, 3)) {
      b.resize (std::min (n, place ()));
    } else if (c.rng.chance (1, 3)) {
      b.push_back (0);
    }
    c.tally ("starts:large");
    starts_check (c, a, b);
  }
}

// results of a call on a temporary cannot dangle
static_assert (std::is_same_v<decltype (uri::find_last (std::declval<std::vector<int>> (), 1)), std::ranges::dangling>);
static_assert (std::ranges::borrowed_range<decltype (uri::find_last (std::declval<std::vector<int>&> (), 1))>);
// usable in constant expressions
constexpr int fixed[] = {1, 2, 1, 3};
static_assert (uri::find_last (std::begin (fixed), std::end (fixed), 1).begin () == fixed + 2);
static_assert (uri::starts_with (std::begin (fixed), std::end (fixed), std::begin (fixed), std::begin (fixed) + 2));

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"enum-find", 3 * gen::count_strings (3, 8), 3 * gen::count_strings (3, 10), enum_find},
              {"enum-starts", pair_n * pair_n, pair_n * pair_n, enum_starts},
              {"enum-starts-3", tri_n * tri_n, tri_n * tri_n, enum_starts3},
              {"random-find", 100000, 5000000, random_find},
              {"random-starts", 100000, 4000000, random_starts},
              {"large", 200, 6000, large}};
  return r.main (argc, argv);
}
