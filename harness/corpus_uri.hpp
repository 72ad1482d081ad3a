// The text workload shared by the parsing-related checks. Each harness supplies
//   void check_text (vf::Case&, std::string_view);
#ifndef CORPUS_URI_HPP
#define CORPUS_URI_HPP
#include <memory>

#include "gen_uri.hpp"
#include "vf.hpp"

void check_text (vf::Case& c, std::string_view text);

namespace corpus {
using vf::Case;
using vf::u64;
using sv = std::string_view;

// exact-size heap copy: no NUL terminator, nothing readable after the end under ASan
using Exact = vf::Block;

inline void run (Case& c, sv text) {
  c.note (text);
  Exact const e{text};
  check_text (c, e.view ());
}

inline constexpr sv a_struct = "a:/?#@";
inline constexpr sv a_mixed = "a1:/?#@[]%.-";
inline constexpr sv a_ip6 = "0f:.1]v";
inline constexpr sv a_ip4 = "1250.a:";
inline constexpr sv a_pct = "%aG0/";

inline void enum_struct (Case& c) { run (c, gen::nth_string (c.idx, a_struct)); }
inline void enum_mixed (Case& c) { run (c, gen::nth_string (c.idx, a_mixed)); }
inline void enum_ip6 (Case& c) {
  auto const s = gen::nth_string (c.idx >> 1, a_ip6);
  run (c, (c.idx & 1) != 0 ? "s://[" + s + "]" : "//[" + s);
}
inline void enum_ip4 (Case& c) { run (c, "//" + gen::nth_string (c.idx, a_ip4)); }
inline void enum_pct (Case& c) { run (c, (c.idx & 1 ? "s:" : "//") + gen::nth_string (c.idx >> 1, a_pct)); }

inline constexpr sv templates[] = {
  "http://user:pw@host:80/p/q?x=1#f", "a:", "s:a/b", "s:/a", "s://", "s://@:", "/a/b", "a/b", "?q", "#f", "//h", "",
  "//[::1]/", "s://[v1.a:b]:9", "//[1:2:3:4:5:6:7:8]", "s://[1::1.2.3.4]", "//1.2.3.4/", "s:%41%zz", "a%41b?c%42#d%43",
  "urn:a:b", "s:?#", "./a:b", "..//..", "S+-.9:x", "//u%20@h%20:0", "//[::ffff:255.250.199.9]:0?q#f"};
inline u64 byte_sweep_count () {
  u64 n = 0;
  for (auto const t : templates) {
    n += (t.size () + 1) * 512;
  }
  return n;
}
inline void byte_sweep (Case& c) {
  u64 i = c.idx;
  for (auto const t : templates) {
    u64 const m = (t.size () + 1) * 512;
    if (i >= m) {
      i -= m;
      continue;
    }
    std::string s{t};
    auto const pos = i / 512;
    auto const b = static_cast<char> (i % 256);
    if ((i / 256) % 2 == 0 || pos == s.size ()) {
      s.insert (pos, 1, b);
    } else {
      s[pos] = b;
    }
    run (c, s);
    return;
  }
}
inline void two_bytes (Case& c) {
  static constexpr sv pre[] = {"", "s:", "//", "//h", "s:/", "//[", "//u@h:", "?", "#", "/a%"};
  std::string s{pre[c.idx / 65536 % std::size (pre)]};
  s += static_cast<char> (c.idx & 0xFF);
  s += static_cast<char> ((c.idx >> 8) & 0xFF);
  run (c, s);
}

// every IPv6 shape: a groups, 0..2 elisions, b groups, optional IPv4 tail, one group of odd length
inline constexpr u64 ip6_shapes = 10 * 3 * 10 * 2 * 6 * 4;
inline void ip6_shape (Case& c) {
  u64 i = c.idx;
  auto take = [&i] (u64 n) {
    u64 const r = i % n;
    i /= n;
    return r;
  };
  u64 const a = take (10), el = take (3), b = take (10), tail = take (2), glen = take (6), ctx = take (4);
  u64 const n = a + b;
  u64 const odd = n == 0 ? 0 : c.rng.below (n);
  auto group = [&] (u64 k) {
    u64 const l = k == odd ? glen : 1 + c.rng.below (4);
    std::string s;
    for (u64 j = 0; j < l; ++j) {
      s += c.rng.pick_char (gen::hexd);
    }
    return s;
  };
  std::string s;
  for (u64 k = 0; k < a; ++k) {
    s += (k != 0 ? ":" : "") + group (k);
  }
  if (el == 1) {
    s += "::";
  } else if (el == 2) {
    s += c.rng.chance (1, 2) ? ":::" : "::1::";
  } else if (a != 0 && b != 0) {
    s += ":";
  }
  for (u64 k = 0; k < b; ++k) {
    s += (k != 0 ? ":" : "") + group (a + k);
  }
  if (tail != 0) {
    if (b != 0 || (a != 0 && el == 0)) {
      s += ":";
    }
    s += c.rng.chance (1, 8) ? "1.2.3.256" : gen::ipv4 (c.rng);
  }
  switch (ctx) {
  case 0: run (c, "//[" + s + "]"); break;
  case 1: run (c, "s://u@[" + s + "]:1/p"); break;
  case 2: run (c, "s://[" + s); break;
  default: run (c, "//[" + s + "]x"); break;
  }
}

inline constexpr u64 octet_cases = 4 * 1100 * 3 * 3;
inline void octets (Case& c) {
  u64 i = c.idx;
  u64 const pos = i % 4;
  i /= 4;
  u64 const v = i % 1100;
  i /= 1100;
  u64 const zeros = i % 3;
  i /= 3;
  std::string s;
  for (u64 k = 0; k < 4; ++k) {
    if (k != 0) {
      s += '.';
    }
    s += k == pos ? std::string (zeros, '0') + std::to_string (v) : gen::octet (c.rng);
  }
  static constexpr sv pre[] = {"//[::", "s://", "//[1:2:3:4:5:6:"};
  run (c, std::string{pre[i]} + s + (i == 1 ? "" : "]"));
}

inline void realistic (Case& c) { run (c, gen::realistic (c.rng, c.rng.chance (3, 4))); }
inline void grammar (Case& c) { run (c, gen::reference (c.rng)); }
inline void mutated (Case& c) {
  auto s = gen::reference (c.rng);
  for (u64 n = 1 + c.rng.below (3); n > 0; --n) {
    gen::mutate (c.rng, s);
  }
  run (c, s);
}
inline constexpr sv tokens[] = {
  "http", "a", "Z9", ":", ":", "/", "/", "//", "?", "#", "@", "[", "]", "[::1]", "[v1.x]", "::", "1.2.3.4", "255", ".", "..",
  "...", "%41", "%2e", "%", "%4", "+", "-", "~", "0", "00", "80", "1:2:3:4:5:6:7:8", "ffff", "v", "V", "=", "&", ";", " ", "\\",
  "\xC3\xA9", "x:y", "127.0.0.1", "256", "%zz", "!$&'()*,", "_", "\0"};
inline void token_soup (Case& c) {
  std::string s;
  for (u64 n = c.rng.range (1, 9); n > 0; --n) {
    s += c.rng.pick (tokens);
  }
  run (c, s);
}
inline void raw_bytes (Case& c) { run (c, gen::bytes (c.rng, c.rng.below (24))); }

// one very long component, valid or with a defect near either end
inline void long_text (Case& c) {
  static constexpr u64 lengths[] = {14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65535, 65536};
  u64 const n = lengths[c.idx % std::size (lengths)];
  u64 const where = c.idx / std::size (lengths) % 12;
  std::string unit = "a";
  if (c.rng.chance (1, 3)) {
    unit = c.rng.chance (1, 2) ? "%4a" : "ab.~";
  }
  std::string body;
  while (body.size () < n) {
    body += unit;
  }
  if (c.rng.chance (1, 3)) {
    body += c.rng.chance (1, 2) ? "%" : "\x80";
  } else if (c.rng.chance (1, 4)) {
    body.insert (c.rng.below (4), 1, '%');
  }
  switch (where) {
  case 0: run (c, body + ":x"); break;
  case 1: run (c, "s:" + body); break;
  case 2: run (c, "s://" + body + "@h"); break;
  case 3: run (c, "s://" + body); break;
  case 4: run (c, "s://h:" + std::string (n, '7') + (c.rng.chance (1, 3) ? "a" : "")); break;
  case 5: run (c, "s:/" + body + "/" + body); break;
  case 6: run (c, "?" + body); break;
  case 7: run (c, "#" + body); break;
  case 8: run (c, body); break;
  case 9: {
    std::string s = c.rng.chance (1, 2) ? "s://h" : "s:a";
    for (u64 k = 0; k < n && k < 8000; ++k) {
      s += "/";
      s += c.rng.chance (1, 3) ? ".." : c.rng.chance (1, 2) ? "a" : "";
    }
    run (c, s);
    break;
  }
  case 10: run (c, "s://[" + std::string (n, c.rng.pick_char (":0f1v.")) + "]"); break;
  default: run (c, std::string (n, c.rng.pick_char ("/:?#@[%.")) + "a"); break;
  }
}

// more segments than narrow counters reach
inline void many_segments (Case& c) {
  static constexpr u64 counts[] = {65535, 65536, 65537, 255, 256, 257, 32768, 66000};
  auto const n = counts[c.idx % std::size (counts)];
  static constexpr sv start[] = {"s://h/", "s:/x/", "s:x/", "x/", "/x/", "//h/"};
  std::string s{start[c.rng.below (std::size (start))]};
  auto const plain = c.rng.chance (1, 2);
  for (u64 k = 1; k < n; ++k) {
    if (!plain || k % 65536 > 65530 || k + 4 > n || c.rng.chance (1, 100)) {
      s += c.rng.pick_char ("ab");
    }
    s += '/';
  }
  s += c.rng.chance (1, 4) ? "" : "z";
  s += c.rng.chance (1, 2) ? "" : "?q#f";
  c.tally ("many-segments");
  run (c, s);
}

// every repetition of the grammar, with every number of repeats up to 300, of one element or of a mixture, and with a
// defect at the end
inline constexpr u64 rep_places = 18, rep_counts = 301, rep_kinds = 9, rep_ends = 3;
inline void repeats (Case& c) {
  u64 i = c.idx;
  auto take = [&i] (u64 n) {
    u64 const r = i % n;
    i /= n;
    return r;
  };
  u64 const place = take (rep_places), n = take (rep_counts), kind = take (rep_kinds), end = take (rep_ends);
  std::string body;
  for (u64 k = 0; k < n; ++k) {
    switch (kind) {
    case 0: body += 'a'; break;
    case 1: body += '7'; break;
    case 2: body += c.rng.pick_char (gen::alnum); break;
    case 3: body += c.rng.pick_char (gen::subd); break;
    case 4: body += c.rng.pick_char ("-._~"); break;
    case 5: gen::pct (c.rng, body); break;
    case 6: body += c.rng.pick_char ("+-.Zz09"); break;
    case 7: body += c.rng.pick_char (gen::hexd); break;
    default: gen::pchar_like (c.rng, body, ":@"); break;
    }
  }
  if (end == 1) {
    body += c.rng.pick_char ("%[]\x7F\x80 :@/?#^");
  } else if (end == 2 && !body.empty ()) {
    body.pop_back ();
  }
  auto const segs = [&] (std::string_view sep) {
    std::string s;
    for (u64 k = 0; k < n; ++k) {
      s += sep;
      switch (kind) {
      case 0: break;
      case 1: s += ".."; break;
      case 2: s += "."; break;
      case 3: s += c.rng.chance (1, 2) ? "" : "a"; break;
      case 4: s += c.rng.chance (1, 2) ? ".." : "a"; break;
      default: s += gen::segment (c.rng, 0); break;
      }
    }
    return s + (end == 1 ? " " : "");
  };
  switch (place) {
  case 0: run (c, "S" + body + ":"); break;
  case 1: run (c, "s://" + body + "@h"); break;
  case 2: run (c, "//" + body + ":@h:1"); break;
  case 3: run (c, "s://" + body); break;
  case 4: run (c, "//u@" + body + ":80/p"); break;
  case 5: run (c, "s://h:" + body); break;
  case 6: run (c, "s:/" + body); break;
  case 7: run (c, "s:" + body + "/x"); break;
  case 8: run (c, body + "?"); break;
  case 9: run (c, "//h/a/" + body + "/"); break;
  case 10: run (c, "s:a?" + body); break;
  case 11: run (c, "s:a?q#" + body); break;
  case 12: run (c, "s://[v" + body + ".x]"); break;
  case 13: run (c, "//[V1." + body + "]"); break;
  case 14: run (c, "s://h" + segs ("/")); break;
  case 15: run (c, "s:/a" + segs ("/")); break;
  case 16: run (c, "s:a" + segs ("/") + "?q"); break;
  default: run (c, "a" + segs ("/") + "#f"); break;
  }
}

// quick sizes chosen to keep a plain build near ten seconds on eight cores
inline std::vector<vf::Phase> phases (double k = 1.0) {
  auto n = [k] (u64 v) { return k == 1.0 ? v : static_cast<u64> (static_cast<double> (v) * k) + 1; };
  return {
    {"enum-struct", gen::count_strings (6, k < 0.5 ? 6 : 7), gen::count_strings (6, 8), enum_struct},
    {"enum-mixed", gen::count_strings (12, k < 0.5 ? 4 : 5), gen::count_strings (12, 6), enum_mixed},
    {"enum-ip6", 2 * gen::count_strings (7, k < 0.5 ? 5 : 6), 2 * gen::count_strings (7, 8), enum_ip6},
    {"enum-ip4", gen::count_strings (7, k < 0.5 ? 5 : 6), gen::count_strings (7, 8), enum_ip4},
    {"enum-pct", 2 * gen::count_strings (5, k < 0.5 ? 5 : 6), 2 * gen::count_strings (5, 8), enum_pct},
    {"byte-sweep", byte_sweep_count (), byte_sweep_count (), byte_sweep},
    {"two-bytes", n (65536 * 10), 65536 * 10, two_bytes},
    {"ip6-shapes", ip6_shapes, ip6_shapes * 20, [] (Case& c) {
       auto const i = c.idx;
       c.idx %= ip6_shapes;
       ip6_shape (c);
       c.idx = i;
     }},
    {"octets", octet_cases, octet_cases, octets},
    {"repeats", n (rep_places * rep_counts * rep_kinds * rep_ends), rep_places * rep_counts * rep_kinds * rep_ends, repeats},
    {"grammar", n (300000), 12000000, grammar},
    {"realistic", n (300000), 6000000, realistic},
    {"mutated", n (300000), 12000000, mutated},
    {"tokens", n (300000), 12000000, token_soup},
    {"bytes", n (100000), 2000000, raw_bytes},
    {"long", n (528), 5280, long_text},
    {"many-segments", n (16), 160, many_segments},
  };
}
}  // namespace corpus
#endif
