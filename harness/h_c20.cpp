// C20: executed basic blocks, bytes moved, allocation and stack depth as the input doubles.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>

#define UNCOUNTED __attribute__ ((no_sanitize_coverage, noinline))

namespace meter {
inline bool on = false;
inline unsigned long blocks = 0;  // basic blocks executed
inline unsigned long moved = 0;   // bytes handled by the C library's block functions
inline unsigned long allocated = 0, live = 0, peak = 0;
inline char* low = nullptr;
}  // namespace meter

extern "C" UNCOUNTED void __sanitizer_cov_trace_pc () {
  if (meter::on) {
    ++meter::blocks;
    auto* const p = static_cast<char*> (__builtin_frame_address (0));
    meter::low = p < meter::low ? p : meter::low;
  }
}

// Blocks moved or searched by the C library are invisible to the block counter: replace those functions.
#define PLAIN_LOOP __attribute__ ((no_sanitize_coverage, noinline, optimize ("no-tree-loop-distribute-patterns")))
extern "C" {
void* vf_memcpy (void* __restrict, void const* __restrict, std::size_t) __asm__ ("memcpy");
void* vf_memmove (void*, void const*, std::size_t) __asm__ ("memmove");
void* vf_memset (void*, int, std::size_t) __asm__ ("memset");
int vf_memcmp (void const*, void const*, std::size_t) __asm__ ("memcmp");
void* vf_memchr (void const*, int, std::size_t) __asm__ ("memchr");
std::size_t vf_strlen (char const*) __asm__ ("strlen");
PLAIN_LOOP void* vf_memcpy (void* __restrict d, void const* __restrict s, std::size_t n) {
  meter::moved += n;
  for (std::size_t i = 0; i < n; ++i) {
    static_cast<char*> (d)[i] = static_cast<char const*> (s)[i];
  }
  return d;
}
PLAIN_LOOP void* vf_memmove (void* d, void const* s, std::size_t n) {
  meter::moved += n;
  auto* const to = static_cast<char*> (d);
  auto const* const from = static_cast<char const*> (s);
  if (to < from) {
    for (std::size_t i = 0; i < n; ++i) {
      to[i] = from[i];
    }
  } else {
    while (n > 0) {
      --n;
      to[n] = from[n];
    }
  }
  return d;
}
PLAIN_LOOP void* vf_memset (void* d, int c, std::size_t n) {
  meter::moved += n;
  for (std::size_t i = 0; i < n; ++i) {
    static_cast<char*> (d)[i] = static_cast<char> (c);
  }
  return d;
}
PLAIN_LOOP int vf_memcmp (void const* a, void const* b, std::size_t n) {
  auto const* const x = static_cast<unsigned char const*> (a);
  auto const* const y = static_cast<unsigned char const*> (b);
  for (std::size_t i = 0; i < n; ++i) {
    ++meter::moved;
    if (x[i] != y[i]) {
      return x[i] < y[i] ? -1 : 1;
    }
  }
  return 0;
}
PLAIN_LOOP void* vf_memchr (void const* p, int c, std::size_t n) {
  auto* const s = static_cast<unsigned char*> (const_cast<void*> (p));
  for (std::size_t i = 0; i < n; ++i) {
    ++meter::moved;
    if (s[i] == static_cast<unsigned char> (c)) {
      return s + i;
    }
  }
  return nullptr;
}
PLAIN_LOOP std::size_t vf_strlen (char const* s) {
  std::size_t n = 0;
  while (s[n] != '\0') {
    ++n;
  }
  meter::moved += n;
  return n;
}
}

UNCOUNTED void* operator new (std::size_t n) {
  auto* const p = std::malloc (n == 0 ? 1 : n);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  if (meter::on) {
    meter::allocated += n;
    meter::live += malloc_usable_size (p);
    meter::peak = meter::live > meter::peak ? meter::live : meter::peak;
  }
  return p;
}
UNCOUNTED void* operator new[] (std::size_t n) { return ::operator new (n); }
UNCOUNTED void operator delete (void* p) noexcept {
  if (meter::on && p != nullptr) {
    auto const n = malloc_usable_size (p);
    meter::live -= n < meter::live ? n : meter::live;
  }
  std::free (p);
}
UNCOUNTED void operator delete[] (void* p) noexcept { ::operator delete (p); }
UNCOUNTED void operator delete (void* p, std::size_t) noexcept { ::operator delete (p); }
UNCOUNTED void operator delete[] (void* p, std::size_t) noexcept { ::operator delete (p); }

#include "ops.hpp"

namespace {
using gen::sv;
using vf::u64;

struct Cost {
  u64 blocks = 0, moved = 0, allocated = 0, peak = 0, stack = 0;
  u64 work () const { return blocks + moved + allocated / 8; }
};

template <typename F> UNCOUNTED Cost metered (F f) {
  char here = 0;
  meter::blocks = meter::moved = meter::allocated = meter::live = meter::peak = 0;
  meter::low = &here;
  meter::on = true;
  f ();
  meter::on = false;
  return {meter::blocks, meter::moved, meter::allocated, meter::peak, static_cast<u64> (&here - meter::low)};
}

// One text and the component sets made of it.
struct Input {
  std::string text;
  std::string copy;
  uri::parts loose;     // the text as every component and its pieces between slashes as the path
  uri::parts shape;     // the text as path only
  std::optional<uri::parts> parsed;
  bool ascii_host = true;
  std::u32string cps;
  std::vector<std::byte> bytes;

  explicit Input (std::string t) : text{std::move (t)}, copy{text} {
    sv const v = text;
    loose.scheme = v.substr (0, v.find_first_of (":/?#"));
    loose.authority = {v, v, v};
    loose.query = v;
    loose.fragment = v;
    shape.path.absolute = !v.empty () && v[0] == '/';
    for (std::size_t at = shape.path.absolute ? 1 : 0; at <= v.size ();) {
      auto const e = std::min (v.find ('/', at), v.size ());
      shape.path.segments.push_back (v.substr (at, e - at));
      at = e + 1;
    }
    loose.path = shape.path;
    parsed = uri::split_reference (v);
    for (auto const ch : v) {
      auto const u = static_cast<unsigned char> (ch);
      ascii_host = ascii_host && u < 0x80 && u != '%';
      cps += u < 0xF0 ? char32_t{u} : char32_t{0x1F600} + u;
      bytes.push_back (static_cast<std::byte> (u));
    }
    for (auto const* const x : {"xn--", "Xn--", "xN--", "XN--"}) {
      ascii_host = ascii_host && v.find (x) == sv::npos;
    }
  }
  Input (Input const&) = delete;
  Input& operator= (Input const&) = delete;
};

// Accepts everything that is inserted and keeps none of it.
struct Null : std::streambuf {
  std::streamsize xsputn (char const*, std::streamsize n) override { return n; }
  int_type overflow (int_type c) override { return traits_type::not_eof (c); }
};
template <typename T> UNCOUNTED void keep (T const& x) { asm volatile ("" : : "g"(&x) : "memory"); }

template <typename From, typename To, typename C> Cost transcode (C const& in) {
  std::basic_string<From> s;
  for (auto const u : in) {
    s += static_cast<From> (u);
  }
  std::basic_string<To> out;
  out.reserve (s.size () * 4 + 8);
  auto a = metered ([&] {
    icubaby::transcoder<From, To> t;
    auto it = std::back_inserter (out);
    for (auto const u : s) {
      it = t (u, it);
    }
    t.end_cp (it);
  });
  std::basic_string<To> lazy;
  lazy.reserve (s.size () * 4 + 8);
  auto const b = metered ([&] {
    for (auto const u : s | icubaby::views::transcode<From, To>) {
      lazy += u;
    }
  });
  a.blocks += b.blocks;
  a.moved += b.moved;
  a.allocated += b.allocated;
  a.peak += b.peak;
  a.stack = std::max (a.stack, b.stack);
  return a;
}

struct Op {
  char const* name;
  Cost (*fn) (Input const&);
};

Op const all[] = {
  {"split", [] (Input const& i) { return metered ([&] { keep (uri::split (i.text)); }); }},
  {"split_reference", [] (Input const& i) { return metered ([&] { keep (uri::split_reference (i.text)); }); }},
  {"valid", [] (Input const& i) { return metered ([&] { keep (i.parsed ? i.parsed->valid () : i.shape.valid ()); }); }},
  {"valid-loose", [] (Input const& i) { return metered ([&] { keep (i.loose.valid ()); keep (i.loose.authority->valid ()); }); }},
  {"valid-path", [] (Input const& i) { return metered ([&] { keep (i.shape.path.valid ()); keep (i.shape.valid ()); }); }},
  {"compose", [] (Input const& i) { return metered ([&] { keep (uri::compose (i.parsed ? *i.parsed : i.loose)); }); }},
  {"compose-stream", [] (Input const& i) {
     Null n;
     std::ostream os{&n};
     return metered ([&] { uri::compose (os, i.loose); os << i.loose; });
   }},
  {"compare", [] (Input const& i) {
     Input const j{i.copy};
     return metered ([&] { keep (i.loose == j.loose); keep (i.loose != j.loose); keep (i.shape.path == j.shape.path); });
   }},
  {"join-text", [] (Input const& i) { return metered ([&] { keep (uri::join ("s://a/b/c", i.text)); keep (uri::join ("s:b", i.text)); }); }},
  {"join-base", [] (Input const& i) { return metered ([&] { keep (uri::join (i.text, "../d")); keep (uri::join (i.text, "")); }); }},
  {"join-both", [] (Input const& i) { return metered ([&] { keep (uri::join (i.text, i.copy)); keep (uri::join (i.text, i.copy, false)); }); }},
  {"join-parts", [] (Input const& i) {
     auto r = i.shape;
     r.path.absolute = false;
     return metered ([&] { keep (uri::join (i.loose, r)); keep (uri::join (r, i.shape)); });
   }},
  {"path-string", [] (Input const& i) { return metered ([&] { keep (static_cast<std::string> (i.shape.path)); }); }},
  {"remove-dots", [] (Input const& i) {
     auto p = i.shape.path;
     p.absolute = true;
     auto q = i.shape.path;
     return metered ([&] { p.remove_dot_segments (); q.remove_dot_segments (); });
   }},
  {"pctencode", [] (Input const& i) {
     return metered ([&] {
       for (auto const s : ops::sets) {
         keep (uri::pctencode (i.text, s));
         keep (uri::needs_pctencode (i.text, s));
       }
     });
   }},
  {"pctdecode", [] (Input const& i) {
     return metered ([&] {
       keep (uri::pctdecode (i.text));
       keep (uri::needs_pctdecode (i.text.begin (), i.text.end ()));
       unsigned n = 0;
       for (char const ch : i.text | uri::views::pctdecode) {
         n += static_cast<unsigned char> (ch);
       }
       keep (n);
     });
   }},
  {"encode", [] (Input const& i) {
     auto p = i.loose;
     if (!i.ascii_host) {
       p.authority->host = "h.example";
     }
     std::vector<char> store;
     return metered ([&] { keep (uri::encode (store, p)); });
   }},
  {"decode", [] (Input const& i) {
     auto p = i.loose;
     if (!i.ascii_host) {
       p.authority->host = "h.example";
     }
     std::vector<char> store;
     return metered ([&] { keep (uri::decode (store, p)); });
   }},
  {"encode-string-store", [] (Input const& i) {
     auto p = i.shape;
     std::string store;
     return metered ([&] { keep (uri::encode (store, p)); });
   }},
  {"decode-string-store", [] (Input const& i) {
     auto p = i.shape;
     std::string store;
     return metered ([&] { keep (uri::decode (store, p)); });
   }},
  {"punycode-plain", [] (Input const& i) {
     std::u32string s;
     for (auto const ch : i.text) {
       s += static_cast<char32_t> (static_cast<unsigned char> (ch) & 0x7F);
     }
     return metered ([&] {
       std::string r;
       (void)uri::punycode::encode (s, true, std::back_inserter (r));
       keep (r);
     });
   }},
  {"transcode-32-8", [] (Input const& i) { return transcode<char32_t, char8_t> (i.cps); }},
  {"transcode-32-16", [] (Input const& i) { return transcode<char32_t, char16_t> (i.cps); }},
  {"transcode-8-16", [] (Input const& i) { return transcode<char8_t, char16_t> (i.text); }},
  {"transcode-8-32", [] (Input const& i) { return transcode<char8_t, char32_t> (i.text); }},
  {"transcode-16-8", [] (Input const& i) { return transcode<char16_t, char8_t> (i.cps); }},
  {"transcode-bytes", [] (Input const& i) {
     std::u8string out;
     out.reserve (i.bytes.size () * 4 + 16);
     return metered ([&] {
       icubaby::transcoder<std::byte, char8_t> t;
       auto it = std::back_inserter (out);
       for (auto const b : i.bytes) {
         it = t (b, it);
       }
       t.end_cp (it);
     });
   }},
};

std::string times (sv unit, u64 n) {
  std::string s;
  s.reserve (unit.size () * n);
  for (u64 i = 0; i < n; ++i) {
    s += unit;
  }
  return s;
}

constexpr sv starts[] = {"", "", "", "a:", "http://h/", "//", "//u@", "//h:", "//[", "//[v1.", "//[::", "/", "s:/", "s:?", "?", "#", "s://h?", "s://h/p#",
                         "//1.2.3.", "./", "../", "s://u:p@h:1/a/b;c?d#e", "//h.", "/..", "//@", "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE"};
constexpr sv tokens[] = {"/", "/", "/", ".", "..", "../", "./", "/.", "/..", "a", "b", "Z", "0", "1", "255", "256", "%41", "%2F", "%2e", "%25", "%C3%A9", "%", "%4",
                         "%zz", ":", "::", "@", "-", "_", "~", "!", "$&'()*+,;=", "f:", "ffff:", "1.2", "1.2.3.4", "[", "]", "?", "#", " ", "\"", "<", "\xC3\xA9",
                         "\xE2\x82\xAC", "\xFF", "\xF0", "\xF0\x9F\x98\x80", "xn--", "xn--a.", ".a", "a.", "v1.", "//", "\\", "^", "{", "long-component-text"};
constexpr sv ends[] = {"", "", "", "/", "..", "/..", "/../..", "@h", "@", "]", ":", ":80", ":x", "?", "#", "?#", "%", "%4", " ", "<", "\xFF", "[", "::", "/./../x", "##", "%41", ".xn--a", ".0"};

// unit^k between a start and an end, k doubling
struct Shape {
  std::string start, unit, mid, unit2, end;
  u64 k;
  std::string text (u64 m) const {
    return start + times (unit, k * m) + mid + times (unit2, k * m) + end;
  }
  std::string show () const {
    return vf::esc (start) + " (" + vf::esc (unit) + ")^" + std::to_string (k) + " " + vf::esc (mid) + " (" + vf::esc (unit2) + ")^" + std::to_string (k) + " " +
           vf::esc (end);
  }
};

void grow (vf::Case& c, Shape const& s) {
  c.note (s.show ());
  static constexpr std::size_t n_ops = std::size (all);
  std::array<std::array<Cost, 4>, n_ops> cost;
  std::size_t len[4];
  bool parsed = true;
  for (unsigned m = 0; m < 4; ++m) {
    Input const in{s.text (1U << m)};
    len[m] = in.text.size ();
    parsed = parsed && in.parsed.has_value ();
    for (std::size_t o = 0; o < n_ops; ++o) {
      cost[o][m] = all[o].fn (in);
    }
  }
  c.tally (parsed ? "grown-parsed" : "grown-not-parsed");
  for (std::size_t o = 0; o < n_ops; ++o) {
    auto const& a = cost[o][0];
    auto const& b = cost[o][3];
    auto const say = [&] (char const* what, u64 Cost::*f) {
      std::string r = std::string{all[o].name} + ": " + what + " grows faster than the input: ";
      for (unsigned m = 0; m < 4; ++m) {
        r += std::to_string (len[m]) + " bytes -> " + std::to_string (f == nullptr ? cost[o][m].work () : cost[o][m].*f) + (m < 3 ? ", " : "");
      }
      return r + "; input " + s.show ();
    };
    // eight times the input: at most fourteen times the cost (containers grow in steps)
    if (b.work () > 14 * a.work () + 8000) {
      c.fail (std::string{"work-"} + all[o].name, say ("work", nullptr));
    }
    if (b.peak > 18 * a.peak + 16384) {
      c.fail (std::string{"memory-"} + all[o].name, say ("memory", &Cost::peak));
    }
    if (b.stack > a.stack + 8192) {
      c.fail (std::string{"stack-"} + all[o].name, say ("stack use", &Cost::stack));
    }
    // no shape may cost out of all proportion, whatever its growth
    u64 const worst = 60000 + 12000 * len[3];
    if (b.blocks + b.moved > worst) {
      c.fail (std::string{"expensive-"} + all[o].name, say ("work", nullptr));
    }
    auto& mx = c.run.tallies[std::string{"max:work-per-100-bytes:"} + all[o].name];
    mx = std::max (mx, (b.blocks + b.moved) * 100 / std::max<u64> (1, len[3]));
    auto& ms = c.run.tallies["max:stack"];
    ms = std::max (ms, b.stack);
    auto& mm = c.run.tallies["max:memory-per-byte"];
    mm = std::max (mm, b.peak / std::max<u64> (1, len[3]));
    c.run.tallies["blocks-executed"] += b.blocks + a.blocks + cost[o][1].blocks + cost[o][2].blocks;
    c.distinct (vf::hash_str (s.show ()) ^ vf::mix (o));
  }
  c.sample ([&] {
    auto r = s.show () + ":";
    for (std::size_t o = 0; o < n_ops; o += 5) {
      r += std::string{" "} + all[o].name + " " + std::to_string (cost[o][0].work ()) + "/" + std::to_string (cost[o][3].work ());
    }
    return r;
  });
}

void every_pair (vf::Case& c) {  // each start with each token
  Shape s;
  auto i = c.idx;
  s.unit = tokens[i % std::size (tokens)];
  i /= std::size (tokens);
  s.start = starts[i % std::size (starts)];
  s.end = c.rng.pick (ends);
  s.k = std::max<u64> (8, 400 / s.unit.size ());
  grow (c, s);
}

void mixed (vf::Case& c) {
  auto& r = c.rng;
  Shape s;
  s.start = r.pick (starts);
  auto fill = [&r] (std::string& u) {
    for (u64 n = 1 + r.below (4); n > 0; --n) {
      u += r.pick (tokens);
    }
  };
  fill (s.unit);
  if (r.chance (1, 2)) {
    fill (s.unit2);
    s.mid = r.pick (starts);
  }
  s.end = r.pick (ends);
  s.k = std::max<u64> (8, (r.chance (1, 10) ? 3000 : 300) / (s.unit.size () + s.unit2.size ()));
  grow (c, s);
}

void random_unit (vf::Case& c) {  // structured text as the repeated unit
  auto& r = c.rng;
  Shape s;
  s.start = r.pick (starts);
  s.unit = r.chance (1, 2) ? gen::reference (r) : gen::bytes (r, 1 + r.below (6));
  if (s.unit.empty () || s.unit.size () > 200) {
    s.unit = "a/";
  }
  s.end = r.pick (ends);
  s.k = std::max<u64> (8, 500 / s.unit.size ());
  grow (c, s);
}

// Short texts: work bounded by a constant per byte.
void brief (vf::Case& c) {
  auto& r = c.rng;
  std::string t;
  switch (r.below (4)) {
  case 0: t = gen::reference (r); break;
  case 1:
    t = gen::uri (r);
    gen::mutate (r, t);
    break;
  default:
    for (u64 n = 1 + r.below (12); n > 0; --n) {
      t += r.pick (r.chance (1, 3) ? starts : ends);
      t += r.pick (tokens);
    }
  }
  if (t.size () > 300) {
    t.resize (300);
  }
  c.note (t);
  Input const in{t};
  for (auto const& op : all) {
    auto const k = op.fn (in);
    u64 const w = k.blocks + k.moved;
    u64 const worst = 60000 + 10000 * t.size ();
    if (w > worst) {
      c.fail (std::string{"short-"} + op.name,
              std::string{op.name} + " of " + std::to_string (t.size ()) + " bytes executes " + std::to_string (w) + " blocks: " + vf::esc (t));
    }
    if (k.peak > 200000 + 4000 * t.size ()) {
      c.fail (std::string{"short-memory-"} + op.name, std::string{op.name} + " uses " + std::to_string (k.peak) + " bytes for " + vf::esc (t));
    }
    auto& mx = c.run.tallies[std::string{"max:short-work:"} + op.name];
    mx = std::max (mx, w * 100 / (60000 + 10000 * t.size ()));
    auto& ms = c.run.tallies["max:short-stack"];
    ms = std::max (ms, k.stack);
  }
  c.tally ("short");
  c.distinct (vf::hash_str (t));
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"start-and-unit", std::size (tokens) * std::size (starts), std::size (tokens) * std::size (starts) * 10, every_pair},
              {"mixed", 1600, 60000, mixed},
              {"structured-unit", 600, 20000, random_unit},
              {"short", 30000, 2000000, brief}};
  return r.main (argc, argv);
}
