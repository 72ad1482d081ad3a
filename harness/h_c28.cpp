// C28: exceptions thrown by the caller's own code (output iterators, input iterators, stores, stream buffers, match and
// accept functions, predicates and projections) pass through the library. The exception is injected at every point where
// the library calls back, one run per point.
#include <list>
#include <new>

#include "ops.hpp"
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"

namespace mem {
long live = 0;
void* get (std::size_t n) {
  void* const p = std::malloc (n == 0 ? 1 : n);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  ++live;
  return p;
}
void put (void* p) {
  if (p != nullptr) {
    --live;
    std::free (p);
  }
}
}  // namespace mem
void* operator new (std::size_t n) { return mem::get (n); }
void* operator new[] (std::size_t n) { return mem::get (n); }
void operator delete (void* p) noexcept { mem::put (p); }
void operator delete[] (void* p) noexcept { mem::put (p); }
void operator delete (void* p, std::size_t) noexcept { mem::put (p); }
void operator delete[] (void* p, std::size_t) noexcept { mem::put (p); }

namespace {
using ops::Input;
using vf::u64;
using sv = std::string_view;

struct Boom {  // not derived from std::exception
  u64 id;
};

// Counts the callbacks; throws at the chosen one.
struct Fuse {
  long at = -1;
  long seen = 0;
  u64 id = 0;
  int kind = 0;
  long thrown = 0;
  void operator() () {
    if (seen++ == at) {
      ++thrown;
      switch (kind) {
      case 0: throw Boom{id};
      case 1: throw std::runtime_error{"the caller's"};
      default: throw id;
      }
    }
  }
};
Fuse* fuse = nullptr;
std::string* trace = nullptr;  // what the caller's code was given so far
void spark () { (*fuse) (); }
void put (char c) { *trace += c; }

template <typename T> struct Out {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  Out& operator* () { return *this; }
  Out& operator++ () { return *this; }
  Out operator++ (int) { return *this; }
  Out& operator= (T v) {
    spark ();
    put (static_cast<char> (v));
    return *this;
  }
};

// An iterator whose reads, steps and (unless the library calls them from noexcept functions) comparisons may throw.
template <typename T, bool Compare = true> struct In {
  using iterator_concept = std::random_access_iterator_tag;
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  T const* p = nullptr;
  T const& operator* () const {
    spark ();
    return *p;
  }
  T const* operator-> () const { return p; }
  In& operator++ () {
    spark ();
    ++p;
    return *this;
  }
  In operator++ (int) {
    auto const r = *this;
    ++*this;
    return r;
  }
  In& operator-- () {
    spark ();
    --p;
    return *this;
  }
  In operator-- (int) {
    auto const r = *this;
    --*this;
    return r;
  }
  In& operator+= (std::ptrdiff_t n) {
    spark ();
    p += n;
    return *this;
  }
  In& operator-= (std::ptrdiff_t n) { return *this += -n; }
  friend In operator+ (In x, std::ptrdiff_t n) { return x += n; }
  friend In operator+ (std::ptrdiff_t n, In x) { return x += n; }
  friend In operator- (In x, std::ptrdiff_t n) { return x -= n; }
  friend std::ptrdiff_t operator- (In const& x, In const& y) {
    spark ();
    return x.p - y.p;
  }
  T const& operator[] (std::ptrdiff_t n) const {
    spark ();
    return p[n];
  }
  auto operator<=> (In const& o) const {
    if (Compare) {
      spark ();
    }
    return p <=> o.p;
  }
  bool operator== (In const& o) const {
    if (Compare) {
      spark ();
    }
    return p == o.p;
  }
};
template <typename T> struct Range {
  T const* b;
  std::size_t n;
  In<T> begin () const { return {b}; }
  In<T> end () const { return {b + n}; }
};
Range<char> over (sv s) { return {s.data (), s.size ()}; }

struct Store {  // a caller's container of char
  std::vector<char> v;
  using value_type = char;
  using iterator = std::vector<char>::iterator;
  using const_iterator = std::vector<char>::const_iterator;
  using reference = char&;
  using const_reference = char const&;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  void clear () {
    spark ();
    v.clear ();
  }
  void reserve (std::size_t n) {
    spark ();
    v.reserve (n);
  }
  void push_back (char c) {
    spark ();
    v.push_back (c);
    put (c);
  }
  std::size_t size () const { return v.size (); }
  bool empty () const { return v.empty (); }
  std::size_t capacity () const { return v.capacity (); }
  char* data () { return v.data (); }
  char const* data () const { return v.data (); }
  iterator begin () { return v.begin (); }
  iterator end () { return v.end (); }
  const_iterator begin () const { return v.begin (); }
  const_iterator end () const { return v.end (); }
};

struct Buf : std::streambuf {
  int_type overflow (int_type ch) override {
    spark ();
    put (static_cast<char> (ch));
    return ch;
  }
  std::streamsize xsputn (char const* p, std::streamsize n) override {
    spark ();
    for (std::streamsize i = 0; i < n; ++i) {
      put (p[i]);
    }
    return n;
  }
};

struct Acceptor {  // copying it may throw
  char tag = 0;
  explicit Acceptor (char t) : tag{t} {}
  Acceptor (Acceptor const& o) : tag{o.tag} { spark (); }
  Acceptor (Acceptor&& o) noexcept = default;
  Acceptor& operator= (Acceptor const&) = default;
  ~Acceptor () = default;
  void operator() (sv s) const {
    spark ();
    put (tag);
    for (char const c : s) {
      put (c);
    }
  }
};
uri::rule::matched_result letter (uri::rule const& r) {
  spark ();
  return r.single_char ([] (char c) {
    spark ();
    return c >= 'a' && c <= 'z';
  });
}
uri::rule::matched_result item (uri::rule const& r) {
  return r
    .concat ([] (uri::rule const& x) { return x.star (letter, 1, 6).matched ("word", x); }, Acceptor{'w'})
    .optional (uri::single_char (':'), Acceptor{'c'})
    .matched ("item", r);
}
uri::rule grammar (uri::rule const& r) {
  return r.concat (letter, Acceptor{'L'})
    .star (item, 0, 5)
    .optional ([] (uri::rule const& x) { spark (); return x.concat (uri::single_char ('/')).star (item, 0, 5).matched ("rest", x); }, Acceptor{'R'})
    .alternative (
      [] (uri::rule const& x) { return x.concat (letter, Acceptor{'x'}).concat (uri::digit, Acceptor{'y'}).matched ("no", x); },
      [] (uri::rule const& x) { return x.concat (uri::digit, Acceptor{'d'}).matched ("digit", x); },
      [] (uri::rule const& x) { return x.star ([] (uri::rule const& y) { spark (); return y.single_char ([] (char) { spark (); return true; }); }, 0, 7).matched ("any", x); });
}

struct Num {  // comparing it may throw
  int v;
  bool operator== (Num const& o) const {
    spark ();
    return v == o.v;
  }
};

void digits (std::ptrdiff_t n) {
  for (char const c : std::to_string (n)) {
    put (c);
  }
}

struct Op {
  char const* name;
  bool prefix;  // what was delivered before the exception is a prefix of what a whole run delivers
  void (*fn) (Input const&);
};
Op const list[] = {
  {"pctencode", true, [] (Input const& i) {
     auto const r = over (i.raw->view ());
     for (auto const s : ops::sets) {
       uri::pctencode (r.begin (), r.end (), Out<char>{}, s);
     }
   }},
  {"needs_pctencode", true, [] (Input const& i) {
     auto const r = over (i.raw->view ());
     for (auto const s : ops::sets) {
       put (uri::needs_pctencode (r.begin (), r.end (), s) ? '!' : '=');
     }
   }},
  {"needs_pctdecode", true, [] (Input const& i) {
     auto const r = over (i.raw->view ());
     put (uri::needs_pctdecode (r.begin (), r.end ()) ? '!' : '=');
   }},
  {"pctdecode_iterator", true, [] (Input const& i) {
     auto const s = i.raw->view ();
     using base = In<char, false>;  // comparing pctdecode_iterators is noexcept
     using it = uri::pctdecode_iterator<base>;
     base const last{s.data () + s.size ()};
     for (it p{base{s.data ()}, last}, e{last, last}; !(p == e); ++p) {
       put (*p);
     }
   }},
  {"pctdecode_view", true, [] (Input const& i) {
     auto const r = over (i.raw->view ());
     for (char const c : std::ranges::subrange{r.begin (), r.end ()} | uri::views::pctdecode) {
       put (c);
     }
   }},
  {"punycode-encode", true, [] (Input const& i) {
     Range<char32_t> const r{i.cps.data (), i.cps.size ()};
     uri::punycode::encode (r, true, Out<char>{});
     put ('|');
     uri::punycode::encode (r, false, Out<char>{});
   }},
  {"punycode-decode", true, [] (Input const& i) {
     for (auto const s : {i.coded->view (), i.raw->view ()}) {
       auto const r = over (s);
       auto const d = uri::punycode::decode (r.begin (), r.end ());
       for (char const c : d.index () == 0 ? std::string{"error"} : ops::hex (std::get<1> (d).str)) {
         put (c);
       }
     }
   }},
  {"encode-store", false, [] (Input const& i) {
     Store s;
     auto const p = uri::encode (s, i.parts.p);
     for (char const c : pc::show (p)) {
       put (c);
     }
   }},
  {"decode-store", false, [] (Input const& i) {
     Store s;
     auto const p = uri::decode (s, i.parts.p);
     for (char const c : p.index () == 0 ? std::string{"error"} : pc::show (std::get<1> (p))) {
       put (c);
     }
   }},
  {"compose", true, [] (Input const& i) {
     Buf b;
     std::ostream os{&b};
     os.exceptions (std::ios::badbit);
     uri::compose (os, i.parts.p);
     os << '|' << i.parts2.p << '|' << i.parts.p.path;
     if (i.parts.p.authority) {
       os << *i.parts.p.authority;
     }
   }},
  {"grammar", true, [] (Input const& i) {
     static uri::rule const nothing{sv{}};
     for (auto const s : {i.a->view (), i.b->view (), i.coded->view ()}) {
       uri::rule const x{s};
       auto const before = x.tail ();
       uri::rule const whole = grammar (x);
       if (x.tail () != before || !x.tail ()) {
         put ('#');
       }
       bool const ok = whole.done ();
       put (ok ? '!' : '?');
       put (whole.done () == ok ? '=' : '#');  // and again, from the beginning
       auto const one = x.concat (letter, Acceptor{'1'}).matched ("one", x);
       put (one ? '1' : '0');
       if (one) {  // the actions of a match made elsewhere
         for (auto const& [f, t] : std::get<1> (*one)) {
           f (t);
         }
       }
       put (nothing.done () ? '.' : '#');
     }
   }},
  {"find_last", true, [] (Input const& i) {
     std::vector<Num> v;
     for (char const c : i.raw->view ()) {
       v.push_back ({c % 4});
     }
     std::list<Num> const l{v.begin (), v.end ()};
     Num const want{1};
     digits (std::ranges::distance (uri::find_last (v, want)));
     digits (std::ranges::distance (uri::find_last (l, want)));
     digits (std::ranges::distance (uri::find_last (v, 2, [] (Num const& n) { spark (); return n.v; })));
     digits (std::ranges::distance (uri::find_last (std::counted_iterator{l.begin (), static_cast<std::ptrdiff_t> (l.size ())}, std::default_sentinel, want)));
   }},
  {"starts_with", true, [] (Input const& i) {
     auto const r = over (i.raw->view ());
     auto const whole = i.raw->view ();
     auto const q = over (whole.substr (0, whole.size () / 2));
     put (uri::starts_with (r, q) ? '1' : '0');
     put (uri::starts_with (r.begin (), r.end (), q.begin (), q.end (), [] (char x, char y) { spark (); return x == y; },
                            [] (char x) { spark (); return x; }, [] (char x) { spark (); return x; }) ? '1' : '0');
   }},
  {"count-and-locate", true, [] (Input const& i) {
     Range<char16_t> const r{i.u16.data (), i.u16.size ()};
     digits (icubaby::length (r));
     digits (icubaby::length (r.begin (), r.end (), [] (char16_t c) { spark (); return c; }));
     digits (icubaby::index (r, 2).p - i.u16.data ());
   }},
  {"transcode_view", true, [] (Input const& i) {
     Range<char16_t> const r{i.u16.data (), i.u16.size ()};
     for (auto const u : std::ranges::subrange{r.begin (), r.end ()} | icubaby::views::transcode<char16_t, char32_t>) {
       put (static_cast<char> (u & 0x7F));
       put (static_cast<char> (u >> 7));
     }
   }},
};

void throwing (vf::Case& c) {
  auto const in = ops::input (c.rng, false);
  auto const& op = list[c.idx % std::size (list)];
  c.note (op.name);
  auto const before = in.show ();
  Fuse f;
  std::string whole, out;
  fuse = &f;
  trace = &whole;
  whole.reserve (1 << 16);
  out.reserve (1 << 16);
  op.fn (in);
  if (whole.size () > (1 << 16) - 16) {
    return;
  }
  auto const points = f.seen;
  c.tally ("calls");
  c.tally ("callbacks", static_cast<u64> (points));
  trace = &out;
  long const most = c.thorough ? 4000 : 120;
  for (long k = 0; k < std::min (points, most); ++k) {
    f = Fuse{};
    f.at = points <= most ? k : static_cast<long> (c.rng.below (static_cast<u64> (points)));
    f.id = c.rng.next ();
    f.kind = static_cast<int> (c.rng.below (3));
    out.clear ();
    int caught = -1;
    bool same = true;
    auto const live = mem::live;
    try {
      op.fn (in);
    } catch (Boom const& b) {
      caught = 0;
      same = b.id == f.id;
    } catch (std::runtime_error const& e) {
      caught = 1;
      same = std::strcmp (e.what (), "the caller's") == 0;
    } catch (u64 const x) {
      caught = 2;
      same = x == f.id;
    } catch (...) {
      caught = 3;
    }
    auto const now = mem::live;
    std::string const where = std::string{op.name} + ", exception at callback " + std::to_string (f.at) + " of " + std::to_string (points);
    if (caught == -1) {
      c.fail ("swallowed", where + " does not reach the caller: " + before);
    } else if (caught != f.kind || !same) {
      c.fail ("changed", where + " reaches the caller as another: " + before);
    }
    if (now != live) {
      c.fail ("leak", where + " leaves " + std::to_string (now - live) + " allocations behind: " + before);
    }
    if (op.prefix && (out.size () > whole.size () || whole.compare (0, out.size (), out) != 0)) {
      c.fail ("output", where + ": delivered " + vf::esc (out) + " which a whole run does not start with: " + vf::esc (whole));
    }
    c.tally ("exceptions");
    c.tally (op.name);
    c.distinct (vf::mix (static_cast<u64> (f.at) * 64 + c.idx % std::size (list)) ^ vf::hash_str (before));
  }
  // and now it works again
  f = Fuse{};
  out.clear ();
  op.fn (in);
  if (out != whole) {
    c.fail ("afterwards", std::string{op.name} + " gives another result after exceptions: " + before);
  }
  if (in.show () != before) {
    c.fail ("modified", std::string{op.name} + " modified its arguments: " + before);
  }
  c.sample ([&] { return std::string{op.name} + ": " + std::to_string (points) + " callbacks, " + before; });
}

// A stream buffer that fails, with the stream's exceptions off: the stream is bad and holds a prefix of the text.
struct FullBuf : std::streambuf {
  std::string s;
  std::size_t room = 0;
  bool throws = false;
  int_type overflow (int_type ch) override {
    if (s.size () >= room) {
      if (throws) {
        throw Boom{0};
      }
      return traits_type::eof ();
    }
    s += static_cast<char> (ch);
    return ch;
  }
  std::streamsize xsputn (char const* p, std::streamsize n) override {
    auto const k = std::min (static_cast<std::size_t> (n), room - s.size ());
    s.append (p, k);
    if (k < static_cast<std::size_t> (n) && throws) {
      throw Boom{0};
    }
    return static_cast<std::streamsize> (k);
  }
};
void full_stream (vf::Case& c) {
  auto const in = ops::input (c.rng, false);
  c.note ("full stream");
  auto write = [&in] (std::ostream& os) {
    uri::compose (os, in.parts.p);
    os << in.parts2.p << in.parts.p.path;
    if (in.parts.p.authority) {
      os << *in.parts.p.authority;
    }
  };
  FullBuf all;
  all.room = 1 << 20;
  std::ostream os{&all};
  write (os);
  if (!os.good ()) {
    c.fail ("bad-for-nothing", "a stream is not good after composing " + pc::show (in.parts.p));
  }
  auto const n = all.s.size ();
  for (std::size_t k = 0; k < 40 && k <= n; ++k) {
    FullBuf b;
    b.room = n <= 40 ? k : c.rng.below (n + 1);
    b.throws = c.rng.chance (1, 2);
    std::ostream o{&b};
    write (o);
    if (b.s != all.s.substr (0, b.room)) {
      c.fail ("full-stream-text", "a stream with room for " + std::to_string (b.room) + " holds " + vf::esc (b.s) + " of " + vf::esc (all.s));
    }
    if (o.good () != (b.room >= n)) {
      c.fail ("full-stream-state", "a stream with room for " + std::to_string (b.room) + " of " + std::to_string (n) + " bytes is " + (o.good () ? "good" : "bad"));
    }
    c.tally ("streams");
    c.distinct (vf::hash_str (all.s) ^ vf::mix (b.room));
  }
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"throwing", 6000, 300000, throwing}, {"full-stream", 2000, 200000, full_stream}};
  return r.main (argc, argv);
}
