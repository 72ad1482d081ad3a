// C14: every allocation of every operation is made to fail in turn.
#include <new>

namespace mem {
// Counted and failing allocation. Only allocations made while `on` are counted and may fail.
struct Header {
  std::size_t size;
  std::size_t counted;
};
inline bool on = false;
inline unsigned long count = 0;      // allocations made while on
inline unsigned long fail_at = 0;    // 0: never
inline unsigned long failed = 0;
inline long live = 0;                // counted blocks outstanding
inline bool noexcept_used = false;
void* get (std::size_t n, bool nothrow);
void put (void* p);
}  // namespace mem

#include "ops.hpp"

namespace mem {
void* get (std::size_t n, bool nothrow) {
  bool const counted = on;
  if (counted) {
    ++count;
    if (count == fail_at) {
      ++failed;
      if (nothrow) {
        return nullptr;
      }
      throw std::bad_alloc{};
    }
    ++live;
  }
  auto* const h = static_cast<Header*> (std::malloc (sizeof (Header) + n));
  if (h == nullptr) {
    std::abort ();
  }
  h->size = n;
  h->counted = counted ? 1 : 0;
  return h + 1;
}
void put (void* p) {
  if (p == nullptr) {
    return;
  }
  auto* const h = static_cast<Header*> (p) - 1;
  if (h->counted != 0) {
    --live;
  }
  std::memset (p, 0xDD, h->size);
  std::free (h);
}
}  // namespace mem

void* operator new (std::size_t n) { return mem::get (n, false); }
void* operator new[] (std::size_t n) { return mem::get (n, false); }
void* operator new (std::size_t n, std::nothrow_t const&) noexcept {
  try {
    return mem::get (n, true);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[] (std::size_t n, std::nothrow_t const&) noexcept {
  try {
    return mem::get (n, true);
  } catch (...) {
    return nullptr;
  }
}
void operator delete (void* p) noexcept { mem::put (p); }
void operator delete[] (void* p) noexcept { mem::put (p); }
void operator delete (void* p, std::size_t) noexcept { mem::put (p); }
void operator delete[] (void* p, std::size_t) noexcept { mem::put (p); }
void operator delete (void* p, std::nothrow_t const&) noexcept { mem::put (p); }
void operator delete[] (void* p, std::nothrow_t const&) noexcept { mem::put (p); }

namespace {
using vf::u64;

// The bare calls, with nothing of the harness allocating between on and off.
// Each returns a transcript computed after accounting is off.
struct Window {
  Window () { mem::on = true; }
  ~Window () { mem::on = false; }
};
template <typename F> auto counted (F f) {
  Window const w;
  return f ();
}

template <typename R> std::string text (R const& r) {
  if constexpr (std::is_same_v<R, uri::parts>) {
    return pc::show (r);
  } else if constexpr (std::is_same_v<R, std::optional<uri::parts>>) {
    return ops::opt (r);
  } else if constexpr (std::is_same_v<R, std::variant<std::error_code, uri::parts>>) {
    return r.index () == 0 ? std::get<0> (r).message () : pc::show (std::get<1> (r));
  } else if constexpr (std::is_same_v<R, std::filesystem::path>) {
    return r.native ();
  } else if constexpr (std::is_same_v<R, struct uri::parts::path>) {
    return pc::path_text (r);
  } else {
    return r;
  }
}

struct Op {
  char const* name;
  std::string (*fn) (ops::Input const&);
};

Op const all[] = {
  {"split", [] (ops::Input const& i) { return text (counted ([&] { return uri::split (i.a->view ()); })); }},
  {"split_reference", [] (ops::Input const& i) { return text (counted ([&] { return uri::split_reference (i.b->view ()); })); }},
  {"join-text", [] (ops::Input const& i) { return text (counted ([&] { return uri::join (i.a->view (), i.b->view ()); })); }},
  {"join-text-loose", [] (ops::Input const& i) { return text (counted ([&] { return uri::join (i.a->view (), i.b->view (), false); })); }},
  {"join-parts", [] (ops::Input const& i) { return text (counted ([&] { return uri::join (i.parts.p, i.parts2.p); })); }},
  {"join-parts-loose", [] (ops::Input const& i) { return text (counted ([&] { return uri::join (i.parts2.p, i.parts.p, false); })); }},
  {"compose", [] (ops::Input const& i) { return text (counted ([&] { return uri::compose (i.parts.p); })); }},
  {"path-string", [] (ops::Input const& i) { return text (counted ([&] { return static_cast<std::string> (i.parts.p.path); })); }},
  // std::filesystem::path is left out: its own operator/= crashes here when an allocation fails (see DESIGN.md)
  {"remove-dots", [] (ops::Input const& i) {
     auto p = i.parts.p.path;
     counted ([&] { p.remove_dot_segments (); return 0; });
     return text (p);
   }},
  {"pctencode", [] (ops::Input const& i) { return text (counted ([&] { return uri::pctencode (i.raw->view (), uri::pctencode_set::component); })); }},
  {"pctencode-iterators", [] (ops::Input const& i) {
     auto const v = i.raw->view ();
     return text (counted ([&] {
       std::string r;
       uri::pctencode (v.begin (), v.end (), std::back_inserter (r), uri::pctencode_set::userinfo);
       return r;
     }));
   }},
  {"pctdecode", [] (ops::Input const& i) { return text (counted ([&] { return uri::pctdecode (i.raw->view ()); })); }},
  {"pctdecode-view", [] (ops::Input const& i) {
     return text (counted ([&] {
       std::string r;
       std::ranges::copy (i.raw->view () | uri::views::pctdecode, std::back_inserter (r));
       return r;
     }));
   }},
  {"punycode-encode", [] (ops::Input const& i) {
     return text (counted ([&] {
       std::string r;
       auto const t = uri::punycode::encode (i.cps, true, std::back_inserter (r));
       r += std::get<2> (t) ? '!' : '=';
       return r;
     }));
   }},
  {"punycode-decode", [] (ops::Input const& i) {
     auto const r = counted ([&] { return uri::punycode::decode (i.coded->view ()); });
     return ops::punycoded (r);
   }},
  {"encode", [] (ops::Input const& i) {
     std::vector<char> store;
     auto r = text (counted ([&] { return uri::encode (store, i.parts.p); }));
     return r;
   }},
  {"encode-string-store", [] (ops::Input const& i) {
     std::string store{"earlier content"};
     return text (counted ([&] { return uri::encode (store, i.parts2.p); }));
   }},
  {"decode", [] (ops::Input const& i) {
     std::vector<char> store;
     return text (counted ([&] { return uri::decode (store, i.parts.p); }));
   }},
  {"decode-string-store", [] (ops::Input const& i) {
     std::string store{"earlier content"};
     return text (counted ([&] { return uri::decode (store, i.parts2.p); }));
   }},
  {"grammar", [] (ops::Input const& i) {
     auto const v = i.a->view ();
     std::string got;
     bool ok = false;
     counted ([&] {
       auto word = [] (uri::rule const& x) { return x.star (uri::alpha, 1, 8).matched ("word", x); };
       ok = uri::rule{v}.concat (word, [&got] (ops::sv const s) { got = s; })
              .optional (uri::single_char (':'), [&got] (ops::sv) { got += "<colon>"; })
              .star ([&got] (uri::rule const& y) {
                return y.concat ([] (uri::rule const& z) { return z.alternative (uri::hexdig, uri::alpha, uri::char_range ('!', '@')).matched ("any", z); },
                                 [&got] (ops::sv const s) { got += "+"; got += s; }).matched ("item", y);
              }, 0, 40)
              .done ();
       return 0;
     });
     return (ok ? "match " : "none ") + got;
   }},
};

// The const inputs, texts and addresses.
std::string snapshot (ops::Input const& i) {
  std::string r = i.show () + pc::show (i.parts2.p);
  for (auto const* p : {&i.parts.p, &i.parts2.p}) {
    pc::each_view (*p, [&r] (char const*, ops::sv s) { r += std::to_string (reinterpret_cast<std::uintptr_t> (s.data ())) + ","; });
  }
  return r;
}

void exhaust (vf::Case& c, ops::Input const& in, Op const& op) {
  c.note (std::string{op.name} + " on " + in.show ());
  auto run = [&] (unsigned long at) {
    mem::count = mem::failed = 0;
    mem::fail_at = at;
    return op.fn (in);
  };
  long const live0 = mem::live;
  std::string normal;
  normal = run (0);
  unsigned long const n = mem::count;
  if (mem::live != live0) {
    c.fail ("leak-normal", std::string{op.name} + " leaks without any failure on " + in.show ());
    mem::live = live0;
  }
  c.tally (op.name);
  if (n == 0) {
    c.tally ("no-allocation");
    return;
  }
  c.tally ("allocations", n);
  auto const before = snapshot (in);
  unsigned long const most = c.thorough ? 400 : 60;
  for (unsigned long k = 1; k <= n; ++k) {
    if (n > most && k > most / 3 && k + most / 3 <= n && !c.rng.chance (static_cast<unsigned> (most / 3), static_cast<unsigned> (n))) {
      continue;  // long runs: all of the beginning and end, a sample of the middle
    }
    std::string got;
    bool threw = false;
    try {
      got = run (k);
    } catch (std::bad_alloc const&) {
      threw = true;
    } catch (std::exception const& e) {
      mem::fail_at = 0;
      c.fail ("other-exception", std::string{op.name} + " on " + in.show () + ": failing allocation " + std::to_string (k) + " of " +
                std::to_string (n) + " throws " + e.what ());
      threw = true;
    }
    bool const failed = mem::failed != 0;
    mem::fail_at = 0;
    if (!failed) {
      // fewer allocations than in the undisturbed run: nothing was injected
      c.tally ("not-reached");
      if (threw || got != normal) {
        c.fail ("unstable", std::string{op.name} + " on " + in.show () + " gives a different result the second time");
      }
      continue;
    }
    c.tally ("injected");
    c.tally (threw ? "threw" : "absorbed");
    if (!threw && got != normal) {
      c.fail ("wrong-result", std::string{op.name} + " on " + in.show () + ": with allocation " + std::to_string (k) + " of " +
                std::to_string (n) + " failing it returns " + vf::esc (got) + " instead of throwing; normally " + vf::esc (normal));
    }
    if (mem::live != live0) {
      c.fail ("leak", std::string{op.name} + " on " + in.show () + ": failing allocation " + std::to_string (k) + " of " + std::to_string (n) +
                " leaks " + std::to_string (mem::live - live0) + " blocks");
      mem::live = live0;
    }
    c.distinct (vf::hash_str (normal, k) ^ vf::hash_str (op.name));
  }
  if (snapshot (in) != before) {
    c.fail ("input-changed", std::string{op.name} + " changes its input when memory runs out: " + in.show ());
  }
  if (auto const again = run (0); again != normal) {
    c.fail ("after", std::string{op.name} + " on " + in.show () + " gives a different result after failures: " + vf::esc (again));
  }
  c.sample ([&] { return std::string{op.name} + ": " + std::to_string (n) + " allocations on " + in.show (); });
}

void each_op (vf::Case& c) {
  auto const in = ops::input (c.rng, false);
  exhaust (c, in, all[c.idx % std::size (all)]);
}
// results too long for small-string storage, many segments, long labels
void big (vf::Case& c) {
  auto in = ops::input (c.rng, false, 12);
  auto longer = [&] (std::string s) {
    while (s.size () < 40) {
      s += s.empty () ? "q" : s;
    }
    return s;
  };
  auto& p = in.parts.p;
  for (auto* q : {&in.parts, &in.parts2}) {
    auto& a = q->p.ensure_authority ();
    a.userinfo = q->hold (longer (gen::word (c.rng, 1, ":")) + (c.rng.chance (1, 2) ? " \xFF" : "%20"));
    std::string h;
    for (u64 n = 1 + c.rng.below (3); n > 0; --n) {
      h += c.rng.chance (1, 2) ? "xn--" + puny::encode (gpu::text (c.rng, 20, false, "abc0"), false).text : longer (puny::utf8 (gpu::text (c.rng, 12, false, "abc0")));
      h += n > 1 ? "." : "";
    }
    a.host = q->hold (h);
    q->p.query = q->hold (longer (gp::hostile (c.rng, gp::Field::query)));
    q->p.path.segments.push_back (q->hold (longer (gp::hostile (c.rng, gp::Field::segment))));
  }
  (void)p;
  in.a = std::make_unique<corpus::Exact> ("scheme://user@host.example.com:80/" + longer (gen::segment (c.rng, 1)) + gen::tail_segs (c.rng) + "?" + gen::word (c.rng, 20, "/") + "#f");
  in.b = std::make_unique<corpus::Exact> ("../" + longer (gen::segment (c.rng, 1, false)) + gen::tail_segs (c.rng) + gen::suffix (c.rng));
  in.raw = std::make_unique<corpus::Exact> (longer (std::string{in.raw->view ()}) + "%41 \x80");
  in.coded = std::make_unique<corpus::Exact> (puny::encode (gpu::text (c.rng, 40, false), c.rng.chance (1, 2)).text);
  in.cps = gpu::text (c.rng, 40, false);
  exhaust (c, in, all[c.idx % std::size (all)]);
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"each-op", 42000, 1200000, each_op}, {"big", 10500, 300000, big}};
  return r.main (argc, argv);
}
