// Every public operation of the library as a function from an input to a transcript of its result.
#ifndef OPS_HPP
#define OPS_HPP
#include <cassert>  // find_last.hpp needs it
#include <filesystem>
#include <forward_list>
#include <list>
#include <mutex>
#include <sstream>

#include "corpus_uri.hpp"
#include "gen_parts.hpp"
#include "gen_puny.hpp"
#include "parts_common.hpp"
#include "uri/find_last.hpp"
#include "uri/parts.hpp"
#include "uri/rule.hpp"
#include "uri/starts_with.hpp"
#include "utf_common.hpp"

namespace ops {
using pc::sv;
using vf::Rng;
using vf::u64;

// Objects of the library's own over one text, made once and from then on only read.
struct Kept {
  explicit Kept (sv const text, sv const grammar)
      : decoder{text}, view{text}, first{uri::pctdecode_begin (text)}, last{uri::pctdecode_end (text)},
        start{uri::rule{grammar}.optional (uri::single_char ('/'), [] (sv) {})},
        error{uri::punycode::make_error_code (uri::punycode::decode_error_code::bad_input)} {}
  uri::pctdecoder<sv::const_iterator> const decoder;
  uri::pctdecode_view<sv> const view;
  uri::pctdecode_iterator<sv::const_iterator> const first, last;
  uri::rule const start;
  std::error_code const error;
};

struct Input {
  std::unique_ptr<corpus::Exact> a, b, raw, coded;
  gp::Owned parts, parts2;
  std::u32string cps;
  std::u16string u16;
  std::vector<std::byte> stream;

  // Made by the first call that asks, because making it calls the library.
  Kept const& kept () const {
    std::call_once (*once, [this] { kept_ = std::make_unique<Kept> (raw->view (), a->view ()); });
    return *kept_;
  }
  std::unique_ptr<std::once_flag> once = std::make_unique<std::once_flag> ();
  mutable std::unique_ptr<Kept> kept_;

  std::string show () const {
    return "a=" + vf::esc (a->view (), 200) + " b=" + vf::esc (b->view (), 200) + " raw=" + vf::esc (raw->view (), 200) +
           " coded=" + vf::esc (coded->view (), 200) + " parts=" + pc::show (parts.p) + " cps=" + uc::show (cps) + " u16=" + uc::show (u16);
  }
};

// wild: values no sane caller passes but the types allow
inline Input input (Rng& r, bool wild, u64 max_segments = 6) {
  Input in;
  auto text = [&r] (bool reference) {
    auto s = reference ? gen::reference (r) : gen::uri (r);
    switch (r.below (6)) {
    case 0: gen::mutate (r, s); break;
    case 1:
      if (r.chance (1, 3)) {
        s = gen::bytes (r, r.below (16));
      }
      break;
    default: break;
    }
    return s;
  };
  in.a = std::make_unique<corpus::Exact> (text (r.chance (1, 3)));
  in.b = std::make_unique<corpus::Exact> (text (true));
  {
    std::string s;
    for (u64 n = r.below (20); n > 0; --n) {
      switch (r.below (4)) {
      case 0: gen::pct (r, s); break;
      case 1: s += '%'; break;
      case 2: s += static_cast<char> (r.below (256)); break;
      default: s += r.pick_char ("aZ09./ ~AFaf"); break;
      }
    }
    in.raw = std::make_unique<corpus::Exact> (s);
  }
  in.coded = std::make_unique<corpus::Exact> (gpu::coded (r));
  in.parts = gp::tuple (r, static_cast<unsigned> (r.below (9)), max_segments);
  in.parts2 = gp::tuple (r, static_cast<unsigned> (r.below (9)), max_segments);
  if (in.parts.p.authority && r.chance (1, 2)) {  // a host with something for IDNA to do
    std::string h;
    for (u64 n = 1 + r.below (3); n > 0; --n) {
      switch (r.below (4)) {
      case 0: h += "xn--" + gpu::coded (r); break;
      case 1: h += gen::bytes (r, r.below (6)); break;
      default: h += puny::utf8 (gpu::text (r, 6, false)); break;
      }
      h += n > 1 ? "." : "";
    }
    in.parts.p.authority->host = in.parts.hold (h);
  }
  in.cps = gpu::text (r, 10, wild);
  if (wild && r.chance (1, 4)) {
    static constexpr char32_t odd[] = {0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xD800, 0xDFFF, 0xFFFFFFFE};
    for (u64 n = 1 + r.below (3); n > 0; --n) {
      in.cps.insert (r.below (in.cps.size () + 1), 1, r.chance (1, 2) ? r.pick (odd) : static_cast<char32_t> (r.next ()));
    }
  }
  auto const d = uc::damaged<char16_t> (r);
  in.u16.assign (d.begin (), d.end ());
  for (auto const x : uc::byte_stream (r)) {
    in.stream.push_back (static_cast<std::byte> (x));
  }
  return in;
}

inline std::string opt (std::optional<uri::parts> const& p) {
  return p ? pc::show (*p) : "none";
}
template <typename R> std::string hex (R const& r) {
  std::string s;
  char b[16];
  for (auto const u : r) {
    std::snprintf (b, sizeof b, "%x,", static_cast<unsigned> (u));
    s += b;
  }
  return s;
}

struct Op {
  char const* name;
  bool allocates;  // must report exhaustion by throwing (C14)
  std::string (*fn) (Input const&);
};

inline constexpr uri::pctencode_set sets[] = {uri::pctencode_set::none, uri::pctencode_set::fragment, uri::pctencode_set::query,
                                              uri::pctencode_set::special_query, uri::pctencode_set::path, uri::pctencode_set::userinfo,
                                              uri::pctencode_set::component, uri::pctencode_set::form_urlencoded};

template <typename T> std::string punycoded (T const& r) {
  if (auto const* const e = std::get_if<std::error_code> (&r)) {
    return std::string{e->category ().name ()} + ":" + std::to_string (e->value ()) + ":" + e->message ();
  }
  return hex (std::get<1> (r).str) + "@";
}
template <typename From, typename To, typename C> std::string transcoded (C const& in) {
  icubaby::transcoder<From, To> t;
  std::basic_string<To> out;
  auto it = std::back_inserter (out);
  for (auto const u : in) {
    it = t (static_cast<From> (u), it);
  }
  bool const partial = t.partial ();
  t.end_cp (it);
  auto r = hex (out) + (t.well_formed () ? "ok" : "bad") + (partial ? " partial" : "");
  auto view = in | std::views::transform ([] (auto u) { return static_cast<From> (u); }) | icubaby::views::transcode<From, To>;
  std::basic_string<To> lazy;
  for (auto const u : view) {
    lazy += u;
  }
  return r + " lazy " + hex (lazy);
}

inline std::vector<Op> const& list () {
  static std::vector<Op> const all = {
    {"split", true, [] (Input const& i) { return opt (uri::split (i.a->view ())) + opt (uri::split (i.b->view ())); }},
    {"split_reference", true, [] (Input const& i) { return opt (uri::split_reference (i.a->view ())) + opt (uri::split_reference (i.b->view ())); }},
    {"join-text", true, [] (Input const& i) { return opt (uri::join (i.a->view (), i.b->view ())) + opt (uri::join (i.a->view (), i.b->view (), false)); }},
    {"join-parts", true, [] (Input const& i) { return pc::show (uri::join (i.parts.p, i.parts2.p)) + pc::show (uri::join (i.parts2.p, i.parts.p, false)); }},
    {"compose", true, [] (Input const& i) { return uri::compose (i.parts.p); }},
    {"parse-compose", true, [] (Input const& i) {
       auto const p = uri::split_reference (i.b->view ());
       return p ? uri::compose (*p) : std::string{"none"};
     }},
    {"compose-stream", false, [] (Input const& i) {
       std::ostringstream os;
       uri::compose (os, i.parts.p);
       os << ' ' << i.parts2.p << ' ' << i.parts.p.path;
       if (i.parts.p.authority) {
         os << ' ' << *i.parts.p.authority;
       }
       return os.str ();
     }},
    {"valid", false, [] (Input const& i) {
       std::string r;
       for (auto const* p : {&i.parts.p, &i.parts2.p}) {
         r += p->valid () ? 'v' : '-';
         r += p->path.valid () ? 'v' : '-';
         r += p->authority && p->authority->valid () ? 'v' : '-';
       }
       return r;
     }},
    {"compare", false, [] (Input const& i) {
       return std::string{i.parts.p == i.parts2.p ? "=" : "!"} + (i.parts.p != i.parts.p ? "!" : "=") + (i.parts.p.path == i.parts2.p.path ? "=" : "!");
     }},
    {"path-string", true, [] (Input const& i) { return static_cast<std::string> (i.parts.p.path) + "|" + static_cast<std::string> (i.parts2.p.path); }},
    {"path-filesystem", true, [] (Input const& i) {
       return static_cast<std::filesystem::path> (i.parts.p.path).native () + "|" + static_cast<std::filesystem::path> (i.parts2.p.path).native ();
     }},
    {"remove-dots", true, [] (Input const& i) {
       auto p = i.parts.p.path;
       p.remove_dot_segments ();
       return pc::path_text (p);
     }},
    {"pctencode", true, [] (Input const& i) {
       std::string r;
       for (auto const s : sets) {
         r += uri::pctencode (i.raw->view (), s) + (uri::needs_pctencode (i.raw->view (), s) ? "!" : "=");
         auto const v = i.coded->view ();
         uri::pctencode (v.begin (), v.end (), std::back_inserter (r), s);
         r += uri::needs_pctencode (v.begin (), v.end (), s) ? "!" : "=";
       }
       return r;
     }},
    {"pctdecode", true, [] (Input const& i) {
       auto const v = i.raw->view ();
       std::string r = uri::pctdecode (v);
       r += uri::needs_pctdecode (v.begin (), v.end ()) ? "!" : "=";
       std::copy (uri::pctdecode_begin (v), uri::pctdecode_end (v), std::back_inserter (r));
       std::ranges::copy (v | uri::views::pctdecode, std::back_inserter (r));
       for (char const ch : uri::pctdecoder{v}) {
         r += ch;
       }
       return r;
     }},
    {"punycode-encode", true, [] (Input const& i) {
       std::string r;
       for (bool const plain : {true, false}) {
         auto const& [in, out, any] = uri::punycode::encode (i.cps, plain, std::back_inserter (r));
         r += any ? "!" : "=";
         r += in == i.cps.end () ? "." : "<";
       }
       return r;
     }},
    {"punycode-decode", true, [] (Input const& i) {
       auto const v = i.coded->view ();
       auto r = punycoded (uri::punycode::decode (v)) + punycoded (uri::punycode::decode (v.begin (), v.end ()));
       std::list<char> const l{v.begin (), v.end ()};
       return r + punycoded (uri::punycode::decode (l)) + punycoded (uri::punycode::decode (i.raw->view ()));
     }},
    {"encode", true, [] (Input const& i) {
       std::vector<char> store;
       auto r = pc::show (uri::encode (store, i.parts.p));
       std::string store2 = "left over";
       return r + pc::show (uri::encode (store2, i.parts2.p));
     }},
    {"decode", true, [] (Input const& i) {
       std::string r;
       for (auto const* p : {&i.parts.p, &i.parts2.p}) {
         std::vector<char> store;
         auto const d = uri::decode (store, *p);
         if (auto const* const e = std::get_if<std::error_code> (&d)) {
           r += e->message ();
         } else {
           r += pc::show (std::get<uri::parts> (d));
         }
       }
       return r;
     }},
    {"transcode", false, [] (Input const& i) {
       auto r = transcoded<char32_t, char8_t> (i.cps) + transcoded<char32_t, char16_t> (i.cps) + transcoded<char16_t, char8_t> (i.u16) +
                transcoded<char16_t, char32_t> (i.u16);
       auto const v = i.raw->view ();
       auto const b = v | std::views::transform ([] (char c) { return static_cast<unsigned char> (c); });
       return r + transcoded<char8_t, char16_t> (b) + transcoded<char8_t, char32_t> (b) + transcoded<char8_t, char8_t> (b);
     }},
    {"transcode-bytes", false, [] (Input const& i) {
       icubaby::transcoder<std::byte, char16_t> t;
       std::u16string out;
       auto it = std::back_inserter (out);
       for (auto const b : i.stream) {
         it = t (b, it);
       }
       t.end_cp (it);
       std::u32string lazy;
       for (auto const u : i.stream | icubaby::views::transcode<std::byte, char32_t>) {
         lazy += u;
       }
       return hex (out) + (t.well_formed () ? "ok" : "bad") + std::to_string (static_cast<int> (t.selected_encoding ())) + hex (lazy);
     }},
    {"transcode-more", false, [] (Input const& i) {
       auto const v = i.raw->view ();
       auto const b = v | std::views::transform ([] (char c) { return static_cast<unsigned char> (c); });
       return transcoded<char32_t, char32_t> (i.cps) + transcoded<char16_t, char16_t> (i.u16) + transcoded<char8_t, char32_t> (b);
     }},
    {"transcode-bytes-more", false, [] (Input const& i) {
       auto run = [&i] (auto t, auto out) {
         auto it = std::back_inserter (out);
         for (auto const b : i.stream) {
           it = t (b, it);
         }
         t.end_cp (it);
         return hex (out) + (t.well_formed () ? "ok" : "bad") + (t.partial () ? "partial" : "");
       };
       return run (icubaby::transcoder<std::byte, char8_t>{}, std::u8string{}) + run (icubaby::transcoder<std::byte, char32_t>{}, std::u32string{});
     }},
    {"count-locate", false, [] (Input const& i) {
       std::string r;
       auto look = [&r] (auto const& c) {
         r += std::to_string (icubaby::length (c)) + "," + std::to_string (icubaby::length (std::begin (c), std::end (c))) + ":";
         for (std::size_t n = 0; n < 6; ++n) {
           r += std::to_string (std::ranges::distance (std::begin (c), icubaby::index (c, n))) + ",";
           r += std::to_string (std::ranges::distance (std::begin (c), icubaby::index (std::begin (c), std::end (c), n))) + ",";
         }
       };
       look (i.cps);
       look (i.u16);
       auto const v = i.raw->view ();
       look (std::u8string{v.begin (), v.end ()});
       return r;
     }},
    {"search", false, [] (Input const& i) {
       std::string r;
       auto const v = i.raw->view ();
       std::list<char> const l{v.begin (), v.end ()};
       std::forward_list<char> const f{v.begin (), v.end ()};
       for (char const ch : {'/', '%', '\0', 'a'}) {
         auto const x = uri::find_last (v, ch);
         r += std::to_string (x.begin () - v.begin ()) + (x.end () == v.end () ? "." : "<");
         auto const y = uri::find_last (l.begin (), l.end (), ch);
         r += std::to_string (std::distance (l.begin (), y.begin ())) + (y.end () == l.end () ? "." : "<");
         auto const z = uri::find_last (f.begin (), f.end (), ch);
         r += std::to_string (std::distance (f.begin (), z.begin ())) + (z.end () == f.end () ? "." : "<");
       }
       for (sv const what : {sv{""}, sv{"/"}, i.coded->view (), v.substr (0, v.size () / 2)}) {
         r += uri::starts_with (v, what) ? 'y' : 'n';
         r += uri::starts_with (l, what) ? 'y' : 'n';
         r += uri::starts_with (v.begin (), v.end (), what.begin (), what.end ()) ? 'y' : 'n';
       }
       return r;
     }},
    // objects of the library's own that the caller shares, and only reads
    {"shared-objects", true, [] (Input const& i) {
       auto const& k = i.kept ();
       std::string r;
       for (char const ch : k.decoder) {
         r += ch;
       }
       std::ranges::copy (k.view.begin (), k.view.end (), std::back_inserter (r));
       for (auto it = k.first; it != k.last; ++it) {
         r += *it;
       }
       auto x = k.start.concat (uri::alpha, [&r] (sv const s) { r += "first " + std::string{s}; });
       r += x.star ([] (uri::rule const& y) { return y.alternative (uri::alpha, uri::digit).matched ("any", y); }).done () ? "match" : "none";
       r += k.error.message () + k.error.category ().name ();
       r += k.error == uri::punycode::make_error_code (uri::punycode::decode_error_code::bad_input) ? "=" : "!";
       r += k.error.default_error_condition () == k.error ? "=" : "!";
       return r;
     }},
    {"grammar", true, [] (Input const& i) {
       std::string r, got;
       auto word = [] (uri::rule const& x) { return x.star (uri::alpha, 1, 8).matched ("word", x); };
       for (auto const v : {i.a->view (), i.b->view ()}) {
         uri::rule x{v};
         bool const ok = x.concat (word, [&got] (sv const s) { got += s; })
                           .optional (uri::single_char (':'), [&got] (sv) { got += "<colon>"; })
                           .star ([&got] (uri::rule const& y) {
                             return y.concat ([] (uri::rule const& z) {
                               return z.alternative (uri::hexdig, uri::digit, uri::alpha, uri::char_range ('!', '@')).matched ("any", z);
                             }, [&got] (sv const s) { got += "+" + std::string{s}; }).matched ("item", y);
                           }, 0, 40)
                           .done ();
         r += (ok ? "match " : "none ") + got;
         got.clear ();
       }
       return r;
     }},
  };
  return all;
}

}  // namespace ops
#endif
