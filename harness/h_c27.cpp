// C27: a call's result is determined by the contents of its arguments alone. Histories of calls run in one process are
// compared call by call with the same call made in a process that has called nothing else.
#include <cstdint>
#include <new>

#include <malloc.h>
#include <sys/wait.h>

#include "ops.hpp"
#define SURROUNDINGS_ANSWER_ALL
#include "surroundings.hpp"

namespace mem {
long fail_after = -1;  // allocations still allowed; -1: no limit
void* get (std::size_t n) {
  if (fail_after >= 0 && fail_after-- == 0) {
    fail_after = 0;  // and every later one until disarmed
    throw std::bad_alloc{};
  }
  void* const p = std::malloc (n == 0 ? 1 : n);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}
}  // namespace mem
void* operator new (std::size_t n) { return mem::get (n); }
void* operator new[] (std::size_t n) { return mem::get (n); }
void operator delete (void* p) noexcept { std::free (p); }
void operator delete[] (void* p) noexcept { std::free (p); }
void operator delete (void* p, std::size_t) noexcept { std::free (p); }
void operator delete[] (void* p, std::size_t) noexcept { std::free (p); }

namespace {
using ops::Input;
using vf::Rng;
using vf::u64;
using sv = std::string_view;

// Runs f in a forked child; returns the words it sent.
template <typename F> std::vector<u64> in_child (F f, int& status) {
  int fd[2];
  if (::pipe (fd) != 0) {
    std::perror ("pipe");
    std::exit (2);
  }
  pid_t const pid = ::fork ();
  if (pid < 0) {
    std::perror ("fork");
    std::exit (2);
  }
  if (pid == 0) {
    ::close (fd[0]);
    ::alarm (300);
    std::vector<u64> const v = f ();
    auto const* p = reinterpret_cast<char const*> (v.data ());
    std::size_t left = v.size () * sizeof (u64);
    while (left > 0) {
      ssize_t const n = ::write (fd[1], p, left);
      if (n <= 0) {
        std::_Exit (3);
      }
      p += n;
      left -= static_cast<std::size_t> (n);
    }
    std::_Exit (0);
  }
  ::close (fd[1]);
  std::string raw;
  char buf[4096];
  for (ssize_t n; (n = ::read (fd[0], buf, sizeof buf)) > 0;) {
    raw.append (buf, static_cast<std::size_t> (n));
  }
  ::close (fd[0]);
  ::waitpid (pid, &status, 0);
  std::vector<u64> r (raw.size () / sizeof (u64));
  std::memcpy (r.data (), raw.data (), r.size () * sizeof (u64));
  return r;
}

// ---- the same memory with other contents ----
// Calls f(address of element, size of element, count) for every text of the input.
template <typename F> void each_text (Input& in, F f) {
  auto text = [&f] (sv s) {
    if (!s.empty ()) {
      f (const_cast<char*> (s.data ()), std::size_t{1}, s.size ());
    }
  };
  for (auto* e : {in.a.get (), in.b.get (), in.raw.get (), in.coded.get ()}) {
    text (e->view ());
  }
  for (auto* o : {&in.parts, &in.parts2}) {
    auto some = [&text] (std::optional<sv> const& s) { text (s ? *s : sv{}); };
    some (o->p.scheme);
    if (o->p.authority) {
      some (o->p.authority->userinfo);
      text (o->p.authority->host);
      some (o->p.authority->port);
    }
    for (auto const s : o->p.path.segments) {
      text (s);
    }
    some (o->p.query);
    some (o->p.fragment);
  }
  if (!in.cps.empty ()) {
    f (in.cps.data (), sizeof (char32_t), in.cps.size ());
  }
  if (!in.u16.empty ()) {
    f (in.u16.data (), sizeof (char16_t), in.u16.size ());
  }
  if (!in.stream.empty ()) {
    f (in.stream.data (), std::size_t{1}, in.stream.size ());
  }
}

// Variant 0 is the input as generated; any other has elements of its texts replaced, in place.
struct Variant {
  std::vector<std::pair<void*, std::string>> saved;
  Variant (Input& in, unsigned v) {
    if (v == 0) {
      return;
    }
    each_text (in, [&] (void* p, std::size_t unit, std::size_t n) {
      saved.emplace_back (p, std::string (static_cast<char const*> (p), unit * n));
    });
    Rng r{vf::mix (v)};
    each_text (in, [&] (void* p, std::size_t unit, std::size_t n) {
      if (r.chance (1, 4)) {
        return;
      }
      auto* const b = static_cast<char*> (p);
      for (u64 k = 1 + r.below (2); k > 0; --k) {
        auto const at = r.below (n);
        if (r.chance (1, 3)) {  // exchange two
          auto const to = r.below (n);
          for (std::size_t i = 0; i < unit; ++i) {
            std::swap (b[at * unit + i], b[to * unit + i]);
          }
        } else if (unit == 1) {
          b[at] = r.pick_char ("aZ0%./:@?#[]-~ \xC3\xA9");
        } else if (unit == 2) {
          auto const u = static_cast<char16_t> (r.chance (1, 2) ? 'a' + r.below (26) : 0xD7F0 + r.below (0x820));
          std::memcpy (b + at * 2, &u, 2);
        } else {
          auto const u = static_cast<char32_t> (r.chance (1, 2) ? 'a' + r.below (26) : 0x80 + r.below (0x5000));
          std::memcpy (b + at * 4, &u, 4);
        }
      }
    });
  }
  Variant (Variant const&) = delete;
  ~Variant () {
    for (auto const& [p, s] : saved) {
      std::memcpy (p, s.data (), s.size ());
    }
  }
};

Input make (u64 seed) {
  Rng r{seed};
  return ops::input (r, false);
}

// ---- operations that hand control back while they run ----
struct Hook {
  std::function<void ()> f;
  unsigned count = 0;
  void operator() () {
    if (f && count++ % 3 == 0) {
      f ();
    }
  }
};
template <typename Container> struct HookedOut {
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  Container* c = nullptr;
  Hook* h = nullptr;
  HookedOut& operator* () { return *this; }
  HookedOut& operator++ () { return *this; }
  HookedOut operator++ (int) { return *this; }
  HookedOut& operator= (typename Container::value_type v) {
    (*h) ();
    c->push_back (v);
    (*h) ();
    return *this;
  }
};
struct HookedBuf : std::streambuf {
  std::string s;
  Hook* h = nullptr;
  int_type overflow (int_type ch) override {
    (*h) ();
    s += static_cast<char> (ch);
    return ch;
  }
  std::streamsize xsputn (char const* p, std::streamsize n) override {
    (*h) ();
    s.append (p, static_cast<std::size_t> (n));
    (*h) ();
    return n;
  }
};

struct Nested {
  char const* name;
  std::string (*fn) (Input const&, Hook&);
};
Nested const nested_ops[] = {
  {"pctencode", [] (Input const& i, Hook& h) {
     std::string r;
     auto const v = i.raw->view ();
     for (auto const s : ops::sets) {
       uri::pctencode (v.begin (), v.end (), HookedOut<std::string>{&r, &h}, s);
       r += '|';
     }
     return r;
   }},
  {"punycode-encode", [] (Input const& i, Hook& h) {
     std::string r;
     uri::punycode::encode (i.cps, false, HookedOut<std::string>{&r, &h});
     return r;
   }},
  {"punycode-decode", [] (Input const& i, Hook& h) {
     auto const v = i.coded->view ();
     auto const r = uri::punycode::decode (v | std::views::transform ([&h] (char c) { h (); return c; }));
     if (auto const* const ok = std::get_if<1> (&r)) {
       return ops::hex (ok->str);
     }
     return "error " + std::to_string (std::get<0> (r).value ());
   }},
  {"transcoder", [] (Input const& i, Hook& h) {
     icubaby::transcoder<char32_t, icubaby::char8> t;
     std::vector<icubaby::char8> out;
     HookedOut<std::vector<icubaby::char8>> it{&out, &h};
     for (auto const c : i.cps) {
       h ();
       it = t (c, it);
     }
     t.end_cp (it);
     return ops::hex (out) + (t.well_formed () ? "ok" : "bad");
   }},
  {"transcode-view", [] (Input const& i, Hook& h) {
     std::u32string out;
     auto v = i.u16 | std::views::transform ([&h] (char16_t c) { h (); return c; }) | icubaby::views::transcode<char16_t, char32_t>;
     for (auto const u : v) {
       h ();
       out += u;
     }
     return ops::hex (out);
   }},
  {"byte-transcode-view", [] (Input const& i, Hook& h) {
     std::u16string out;
     for (auto const u : i.stream | icubaby::views::transcode<std::byte, char16_t>) {
       h ();
       out += u;
     }
     return ops::hex (out);
   }},
  {"pctdecode-view", [] (Input const& i, Hook& h) {
     std::string out;
     auto const v = i.raw->view ();
     for (auto const c : v | uri::views::pctdecode) {
       h ();
       out += c;
     }
     for (auto it = uri::pctdecode_begin (v); it != uri::pctdecode_end (v); ++it) {
       h ();
       out += *it;
     }
     return out;
   }},
  {"compose", [] (Input const& i, Hook& h) {
     HookedBuf b;
     b.h = &h;
     std::ostream os{&b};
     uri::compose (os, i.parts.p);
     os << '|' << i.parts2.p;
     return b.s;
   }},
  {"grammar", [] (Input const& i, Hook& h) {
     std::string got;
     auto word = [&h] (uri::rule const& x) {
       h ();
       return x.star (uri::alpha, 1, 8).matched ("word", x);
     };
     uri::rule x{i.a->view ()};
     bool const ok = x.concat (word, [&] (sv const s) { h (); got += s; })
                       .optional (uri::single_char (':'), [&] (sv) { h (); got += "<colon>"; })
                       .star ([&] (uri::rule const& y) {
                         return y.concat ([&h] (uri::rule const& z) {
                           h ();
                           return z.alternative (uri::hexdig, uri::digit, uri::alpha, uri::char_range ('!', '@')).matched ("any", z);
                         }, [&] (sv const s) { h (); got += "+" + std::string{s}; }).matched ("item", y);
                       }, 0, 40)
                       .done ();
     return got + (ok ? "!" : "?");
   }},
};
constexpr std::size_t n_nested = std::size (nested_ops);

// ---- histories ----
struct Key {
  std::size_t op;  // index into ops::list(), or beyond it into nested_ops
  std::size_t input;
  unsigned variant;
  auto operator<=> (Key const&) const = default;
};
struct Step {
  Key k;
  unsigned place;    // which copy of the input
  int fail;          // allocation that fails, or -1
  Key inner;         // what a nested operation's hooks call
};
constexpr u64 aborted = 0xAB0;
constexpr u64 lost = 0x1057;

std::string name (Key const& k) {
  auto const n = ops::list ().size ();
  return k.op < n ? ops::list ()[k.op].name : std::string{"nested "} + nested_ops[k.op - n].name;
}

struct World {
  std::vector<Input> copies[2];
  explicit World (std::vector<u64> const& seeds) {
    auto const lead = vf::lead;
    for (auto& w : copies) {
      for (auto const s : seeds) {
        w.push_back (make (s));
      }
      vf::lead = (lead + 1 + seeds[0] % 15) % 16;  // the second copy is aligned differently
    }
    vf::lead = lead;
  }
  u64 run (Key const& k, unsigned place, std::function<void ()> hook) {
    Input& in = copies[place][k.input];
    Variant const v{in, k.variant};
    auto const n = ops::list ().size ();
    if (k.op < n) {
      return vf::hash_str (ops::list ()[k.op].fn (in));
    }
    Hook h{std::move (hook)};
    return vf::hash_str (nested_ops[k.op - n].fn (in, h));
  }
};

std::vector<u64> run_history (std::vector<u64> const& seeds, std::vector<Step> const& steps) {
  // what memory holds before it is written must not matter either
  ::mallopt (M_PERTURB, static_cast<int> (1 + (seeds[0] & 0x7F)));
  World w{seeds};
  std::vector<u64> got;
  for (auto const& s : steps) {
    if (s.fail >= 0) {
      try {
        mem::fail_after = s.fail;
        auto const d = w.run (s.k, s.place, {});
        mem::fail_after = -1;
        got.push_back (d);
      } catch (std::bad_alloc const&) {
        mem::fail_after = -1;
        got.push_back (aborted);
      }
      got.push_back (0);
      continue;
    }
    u64 inner = 0;
    bool first = true, same = true;
    auto const outer = w.run (s.k, s.place, [&] {
      // a different input object: the outer call is still reading its own
      auto const d = w.run (s.inner, 1 - s.place, {});
      same = same && (first || d == inner);
      inner = d;
      first = false;
    });
    got.push_back (outer);
    got.push_back (first ? 0 : same ? inner : lost);
  }
  return got;
}

void judge (vf::Case& c, std::vector<u64> const& seeds, std::vector<Step> const& steps, std::map<Key, u64>& alone) {
  auto baseline = [&] (Key const& k) -> std::optional<u64> {
    if (auto const p = alone.find (k); p != alone.end ()) {
      return p->second;
    }
    int status = 0;
    auto const v = in_child ([&] {
      World w{{seeds[k.input]}};
      return std::vector<u64>{w.run ({k.op, 0, k.variant}, 0, {})};
    }, status);
    c.tally ("processes-of-one-call");
    if (status != 0 || v.size () != 1) {
      c.tally ("single-call-failed");  // a matter for another property
      return {};
    }
    alone[k] = v[0];
    return v[0];
  };
  int status = 0;
  auto const got = in_child ([&] { return run_history (seeds, steps); }, status);
  c.tally ("histories");
  if (status != 0 || got.size () != steps.size () * 2) {
    // is it the history, or a call that fails on its own?
    for (auto const& s : steps) {
      if (!baseline (s.k) || (s.inner.op < ops::list ().size () && !baseline (s.inner))) {
        return;
      }
    }
    c.fail ("history-ends", "a sequence of calls ends the process with status " + std::to_string (status) +
                              " although each of them works alone; the last are " + name (steps.back ().k));
    return;
  }
  auto trail = [&] (std::size_t i) {
    std::string r = " after";
    for (std::size_t j = i > 4 ? i - 4 : 0; j < i; ++j) {
      r += " " + name (steps[j].k) + "(" + std::to_string (steps[j].k.input) + "." + std::to_string (steps[j].k.variant) + ")";
    }
    return r;
  };
  for (std::size_t i = 0; i < steps.size (); ++i) {
    auto const& s = steps[i];
    c.tally ("calls");
    if (got[2 * i] == aborted) {
      c.tally ("aborted-calls");
      continue;
    }
    auto const want = baseline (s.k);
    if (want && *want != got[2 * i]) {
      Input in = make (seeds[s.k.input]);
      Variant const v{in, s.k.variant};
      c.fail ("depends-on-history", name (s.k) + " gives another result" + trail (i) + " than in a fresh process: " + in.show ());
      return;
    }
    c.distinct (vf::mix (s.k.op * 131 + s.k.variant) ^ vf::mix (seeds[s.k.input]));
    if (i > 0 && steps[i - 1].k.input == s.k.input && steps[i - 1].place == s.place && steps[i - 1].k.variant != s.k.variant) {
      c.tally ("same-memory-other-contents");
    }
    if (got[2 * i + 1] != 0) {
      c.tally ("calls-within-calls");
      auto const in = baseline (s.inner);
      if (in && *in != got[2 * i + 1]) {
        c.fail ("depends-on-outer-call", name (s.inner) + " called from within " + name (s.k) + " gives another result than in a fresh process");
        return;
      }
    }
  }
}

std::vector<u64> some_seeds (Rng& r, std::size_t n) {
  std::vector<u64> s;
  for (std::size_t i = 0; i < n; ++i) {
    s.push_back (r.next ());
  }
  return s;
}
bool may_abort (std::size_t op) {
  auto const& l = ops::list ();
  return op < l.size () && l[op].allocates && std::strcmp (l[op].name, "path-filesystem") != 0;
}

void mixed (vf::Case& c) {
  auto const n_ops = ops::list ().size ();
  auto const seeds = some_seeds (c.rng, 3);
  std::vector<Step> steps;
  // few operations per history, so that their repetitions meet
  std::size_t menu[4];
  for (auto& m : menu) {
    m = c.rng.below (n_ops + n_nested);
  }
  Key k{menu[0], 0, 0};
  unsigned place = 0;
  std::string what;
  for (u64 n = 60; n > 0; --n) {
    switch (c.rng.below (4)) {
    case 0: k.op = menu[c.rng.below (4)]; break;
    case 1: k.variant = static_cast<unsigned> (c.rng.below (4)); break;
    case 2: k.input = c.rng.below (seeds.size ()); break;
    default: place = static_cast<unsigned> (c.rng.below (2)); break;
    }
    // a call from within a call: any operation, or the very operation that is under way
    auto const within = k.op >= n_ops && c.rng.chance (1, 2) ? k.op : c.rng.below (n_ops + n_nested);
    Step s{k, place, -1, {within, c.rng.below (seeds.size ()), static_cast<unsigned> (c.rng.below (2))}};
    if (may_abort (k.op) && c.rng.chance (1, 5)) {
      s.fail = static_cast<int> (c.rng.below (8));
    }
    steps.push_back (s);
  }
  for (auto const m : menu) {
    what += name ({m, 0, 0}) + " ";
  }
  c.note ("history of " + what);
  std::map<Key, u64> alone;
  judge (c, seeds, steps, alone);
  c.sample ([&] { return std::to_string (steps.size ()) + " calls of " + what; });
}

// One operation, many times over: everything once in a while differs.
void marathon (vf::Case& c) {
  auto const n_ops = ops::list ().size ();
  auto const op = c.idx % n_ops;
  auto const seeds = some_seeds (c.rng, 2);
  c.note (std::string{"marathon of "} + ops::list ()[op].name);
  u64 const rounds = c.thorough ? 200000 : 70000;
  int status = 0;
  auto const got = in_child ([&] {
    World w{seeds};
    u64 calls = 0;
    auto const limit = ::clock () + (c.thorough ? 40 : 4) * CLOCKS_PER_SEC;
    std::vector<u64> first;
    for (std::size_t i = 0; i < seeds.size (); ++i) {
      for (unsigned v = 0; v < 2; ++v) {
        first.push_back (w.run ({op, i, v}, 0, {}));
      }
    }
    u64 bad = 0;
    for (u64 r = 0; r < rounds && bad == 0 && ((r & 63) != 0 || ::clock () < limit); ++r) {
      auto const i = r % seeds.size ();
      auto const v = static_cast<unsigned> ((r >> 1) & 1);
      ++calls;
      if (w.run ({op, i, v}, 0, {}) != first[i * 2 + v]) {
        bad = r + 1;
      }
    }
    return std::vector<u64>{first[0], first[1], first[2], first[3], calls, bad};
  }, status);
  if (status != 0 || got.size () != 6) {
    c.fail ("marathon-ends", std::string{"calling "} + ops::list ()[op].name + " over and over ends the process with status " + std::to_string (status));
    return;
  }
  c.tally ("marathons");
  c.tally ("marathon-calls", got[4]);
  if (got[4] > 65536) {
    c.tally ("marathons-over-65536-calls");
  }
  if (got[5] != 0) {
    c.fail ("marathon-differs", std::string{ops::list ()[op].name} + " gives another result at repetition " + std::to_string (got[5]));
  }
}

// The same calls in processes that differ only in what the clock, the environment variables, random numbers and the like say.
void surroundings (vf::Case& c) {
  auto const n_ops = ops::list ().size ();
  auto const seeds = some_seeds (c.rng, 2);
  constexpr unsigned n_worlds = 4;
  c.note ("calls in other surroundings");
  std::vector<u64> worlds[n_worlds];
  for (unsigned i = 0; i < n_worlds; ++i) {
    int status = 0;
    worlds[i] = in_child ([&] {
      World w{seeds};
      around::world = i;
      std::vector<u64> got;
      for (std::size_t s = 0; s < seeds.size (); ++s) {
        for (std::size_t op = 0; op < n_ops + n_nested; ++op) {
          around::Watch const watch;
          got.push_back (w.run ({op, s, 0}, 0, {}));
        }
      }
      got.push_back (around::asked);
      return got;
    }, status);
    if (status != 0 || worlds[i].size () != seeds.size () * (n_ops + n_nested) + 1) {
      c.tally ("surroundings-ended");  // a matter for another property
      return;
    }
    c.tally ("worlds");
    c.tally ("questions-to-surroundings", worlds[i].back ());
  }
  for (std::size_t k = 0; k + 1 < worlds[0].size (); ++k) {
    c.tally ("calls-in-other-surroundings", n_worlds);
    for (unsigned i = 1; i < n_worlds; ++i) {
      if (worlds[i][k] != worlds[0][k]) {
        c.fail ("depends-on-surroundings", name ({k % (n_ops + n_nested), 0, 0}) + " gives another result when the clock, the environment or "
                                             "random numbers say something else: " + make (seeds[k / (n_ops + n_nested)]).show ());
        return;
      }
    }
  }
}

// ---- objects used in alternation ----
struct Machine {
  virtual ~Machine () = default;
  virtual bool step () = 0;  // false: nothing left to do
  virtual u64 result () const = 0;
};
template <typename From, typename To> struct Transcoding : Machine {
  std::vector<From> in;
  std::vector<To> out;
  icubaby::transcoder<From, To> t;
  std::size_t at = 0;
  bool step () override {
    auto it = std::back_inserter (out);
    if (at < in.size ()) {
      t (in[at++], it);
      return true;
    }
    if (at == in.size ()) {
      t.end_cp (it);
      ++at;
      return true;
    }
    return false;
  }
  u64 result () const override { return vf::hash_str (ops::hex (out) + (t.well_formed () ? "ok" : "bad")); }
};
template <typename From, typename To> struct Viewing : Machine {
  std::vector<From> in;
  using View = decltype (std::declval<std::vector<From>&> () | icubaby::views::transcode<From, To>);
  std::optional<View> v;
  std::optional<std::ranges::iterator_t<View>> it;
  std::vector<To> out;
  bool step () override {
    if (!v) {
      v.emplace (in | icubaby::views::transcode<From, To>);
      it.emplace (v->begin ());
      return true;
    }
    if (*it == v->end ()) {
      return false;
    }
    out.push_back (**it);
    ++*it;
    return true;
  }
  u64 result () const override { return vf::hash_str (ops::hex (out)); }
};
struct Decoding : Machine {
  Input const* in;
  std::string out;
  std::optional<decltype (uri::pctdecode_begin (sv{}))> it, end;
  bool step () override {
    if (!it) {
      it.emplace (uri::pctdecode_begin (in->raw->view ()));
      end.emplace (uri::pctdecode_end (in->raw->view ()));
    }
    if (*it == *end) {
      return false;
    }
    out += **it;
    ++*it;
    return true;
  }
  u64 result () const override { return vf::hash_str (out); }
};
// Results of calls, kept and looked at again later.
struct Keeping : Machine {
  Input const* in;
  unsigned at = 0;
  std::optional<uri::parts> p, q, j;
  uri::parts e, d;
  std::vector<char> store, store2;
  std::string composed;
  std::optional<std::variant<std::error_code, uri::parts>> dec;
  bool step () override {
    switch (at++) {
    case 0: p = uri::split (in->a->view ()); return true;
    case 1: q = uri::split_reference (in->b->view ()); return true;
    case 2: j = uri::join (in->a->view (), in->b->view ()); return true;
    case 3: e = uri::encode (store, in->parts.p); return true;
    case 4: dec = uri::decode (store2, in->parts2.p); return true;
    case 5: composed = uri::compose (in->parts.p); return true;
    default: return at < 9;
    }
  }
  u64 result () const override {
    auto r = ops::opt (p) + ops::opt (q) + ops::opt (j) + pc::show (e) + composed;
    if (dec) {
      if (auto const* const x = std::get_if<std::error_code> (&*dec)) {
        r += x->message ();
      } else {
        r += pc::show (std::get<uri::parts> (*dec));
      }
    }
    return vf::hash_str (r);
  }
};

template <typename From, typename To, template <typename, typename> typename M> std::unique_ptr<Machine> units (Input const& in) {
  auto m = std::make_unique<M<From, To>> ();
  if constexpr (std::is_same_v<From, std::byte>) {
    m->in.assign (in.stream.begin (), in.stream.end ());
  } else if constexpr (std::is_same_v<From, char16_t>) {
    m->in.assign (in.u16.begin (), in.u16.end ());
  } else if constexpr (std::is_same_v<From, char32_t>) {
    m->in.assign (in.cps.begin (), in.cps.end ());
  } else {
    for (char const c : in.raw->view ()) {
      m->in.push_back (static_cast<From> (c));
    }
    for (auto const b : in.stream) {
      m->in.push_back (static_cast<From> (b));
    }
  }
  return m;
}
template <typename M> std::unique_ptr<Machine> of (Input const& in) {
  auto m = std::make_unique<M> ();
  m->in = &in;
  return m;
}
using c8 = icubaby::char8;
using Maker = std::unique_ptr<Machine> (*) (Input const&);
Maker const makers[] = {
  units<c8, char16_t, Transcoding>,       units<c8, char32_t, Transcoding>,        units<char16_t, c8, Transcoding>,
  units<char16_t, char32_t, Transcoding>, units<char32_t, c8, Transcoding>,        units<char32_t, char16_t, Transcoding>,
  units<std::byte, c8, Transcoding>,      units<std::byte, char32_t, Transcoding>, units<c8, c8, Transcoding>,
  units<char16_t, char16_t, Transcoding>, units<c8, char32_t, Viewing>,            units<char16_t, c8, Viewing>,
  units<char32_t, c8, Viewing>,           units<std::byte, char16_t, Viewing>,     of<Decoding>,
  of<Decoding>,                           of<Keeping>,                             of<Keeping>,
  of<Keeping>,
};

void alternate (vf::Case& c) {
  auto const n = 2 + c.rng.below (6);
  auto const seeds = some_seeds (c.rng, n);
  std::vector<std::size_t> kinds;
  bool const alike = c.rng.chance (1, 3);  // all of one kind
  for (u64 i = 0; i < n; ++i) {
    kinds.push_back (i > 0 && alike ? kinds[0] : c.rng.below (std::size (makers)));
  }
  auto const order = c.rng.next ();
  c.note ("objects in alternation");
  int status = 0;
  auto const got = in_child ([&] {
    std::vector<Input> in;
    for (auto const s : seeds) {
      in.push_back (make (s));
    }
    std::vector<std::unique_ptr<Machine>> m;
    for (u64 i = 0; i < n; ++i) {
      m.push_back (makers[kinds[i]](in[i]));
    }
    Rng r{order};
    auto live = m.size ();
    std::vector<bool> done (m.size ());
    u64 switches = 0, last = 0;
    while (live > 0) {
      auto const i = r.below (m.size ());
      if (!done[i]) {
        switches += i != last ? 1 : 0;
        last = i;
        for (u64 k = 1 + r.below (3); k > 0 && !done[i]; --k) {
          if (!m[i]->step ()) {
            done[i] = true;
            --live;
          }
        }
      }
    }
    std::vector<u64> v;
    for (auto const& x : m) {
      v.push_back (x->result ());
    }
    v.push_back (switches);
    return v;
  }, status);
  std::vector<u64> want;
  for (u64 i = 0; i < n; ++i) {
    int st = 0;
    auto const one = in_child ([&] {
      auto const in = make (seeds[i]);
      auto const m = makers[kinds[i]](in);
      while (m->step ()) {
      }
      return std::vector<u64>{m->result ()};
    }, st);
    if (st != 0 || one.size () != 1) {
      c.tally ("single-object-failed");
      return;
    }
    want.push_back (one[0]);
  }
  if (status != 0 || got.size () != n + 1) {
    c.fail ("alternation-ends", "objects used in alternation end the process with status " + std::to_string (status));
    return;
  }
  c.tally ("alternations");
  c.tally ("objects-in-alternation", n);
  c.tally ("switches-between-objects", got[n]);
  for (u64 i = 0; i < n; ++i) {
    if (got[i] != want[i]) {
      c.fail ("objects-interfere", "object " + std::to_string (i) + " of kind " + std::to_string (kinds[i]) +
                                     " gives another result in alternation with others than alone: " + make (seeds[i]).show ());
      return;
    }
    c.distinct (vf::mix (kinds[i]) ^ vf::mix (seeds[i]));
  }
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  // the processes fork from one that has called nothing
  vf::Runner r;
  r.phases = {{"histories", 300, 20000, mixed}, {"alternation", 300, 20000, alternate}, {"surroundings", 150, 6000, surroundings}, {"marathon", ops::list ().size () * 2, ops::list ().size () * 8, marathon}};
  return r.main (argc, argv);
}
