// C11: hosts to and from IDNA ASCII form, observed through encode()/decode() of components.
#include <memory>

#include "gen_puny.hpp"
#include "parts_common.hpp"
#include "uri/parts.hpp"

using pc::sv;
using vf::u64;

namespace {

using Buffer = vf::Block;

uri::parts with_host (vf::Case& c, sv host) {
  uri::parts p;
  p.ensure_authority ().host = host;
  // other fields that need no conversion, some that do
  if (c.idx % 3 == 1) {
    p.scheme = "s";
    p.path.absolute = true;
    p.path.segments = {"a", "b"};
  } else if (c.idx % 3 == 2) {
    p.authority->userinfo = "u@%41";
    p.authority->port = "80";
    p.path.absolute = true;
    p.path.segments = {"%41 ", "b"};
    p.query = "\"";
    p.fragment = "%42";
  }
  return p;
}

template <typename Store> void encode_with (vf::Case& c, sv host, std::optional<std::string> const& want, Store store, char const* what) {
  auto const p = with_host (c, host);
  auto const e = uri::encode (store, p);
  if (!e.authority) {
    c.fail ("encode-authority", "encoding drops the authority");
    return;
  }
  auto const got = e.authority->host;
  if (got != (want ? sv{*want} : host)) {
    c.fail ("encode", std::string{what} + ": encoded host of " + vf::esc (host) + " is " + vf::esc (got) + ", want " + vf::esc (want ? sv{*want} : host));
  }
  if (!want && (got.data () != host.data () || got.size () != host.size ())) {
    c.fail ("encode-copied", "a host that needs no encoding is not returned as it was: " + vf::esc (host));
  }
  for (char const ch : got) {
    if (static_cast<unsigned char> (ch) >= 0x80) {
      c.fail ("encode-ascii", "the encoded host of " + vf::esc (host) + " is not ASCII: " + vf::esc (got));
      break;
    }
  }
}

template <typename Store> void decode_with (vf::Case& c, sv host, puny::HostDecoded const& w, Store store, char const* what) {
  auto const p = with_host (c, host);
  auto const r = uri::decode (store, p);
  auto const* const ec = std::get_if<std::error_code> (&r);
  auto say = [&] (std::string const& want) {
    c.fail ("decode", std::string{what} + ": decoding host " + vf::esc (host) + " gives " +
            (ec != nullptr ? "error \"" + ec->message () + "\"" : vf::esc (std::get<uri::parts> (r).authority->host)) + ", want " + want);
  };
  if (ec != nullptr && !*ec) {
    c.fail ("decode-error-code", "decoding " + vf::esc (host) + " fails with a success code");
  }
  if (ec == nullptr && !std::get<uri::parts> (r).authority) {
    c.fail ("decode-authority", "decoding drops the authority");
    return;
  }
  if (w.unspecified) {
    return;
  }
  switch (w.v) {
  case puny::Verdict::ok:
    if (ec != nullptr || std::get<uri::parts> (r).authority->host != (w.changed ? sv{w.text} : host)) {
      say (vf::esc (w.text));
    } else if (!w.changed && std::get<uri::parts> (r).authority->host.data () != host.data ()) {
      c.fail ("decode-copied", "a host that needs no decoding is not returned as it was: " + vf::esc (host));
    }
    break;
  case puny::Verdict::bad_input:
  case puny::Verdict::overflow:
  case puny::Verdict::error:
    if (ec == nullptr) {
      say ("an error");
    } else if (ec->message ().empty () || *ec->category ().name () == '\0') {
      c.fail ("decode-error-code", "error without a message or category name");
    }
    break;
  case puny::Verdict::ok_or_error: break;
  }
}

std::vector<char> used_vector () { return std::vector<char> (37, 'Z'); }

void both (vf::Case& c, sv text) {
  c.note (text);
  Buffer const b{text};
  auto const host = b.view ();
  auto const want = puny::host_encode (host);
  encode_with (c, host, want, std::string{}, "string");
  encode_with (c, host, want, used_vector (), "vector");
  auto const dec = puny::host_decode (host);
  decode_with (c, host, dec, used_vector (), "vector");
  decode_with (c, host, dec, std::string{"earlier"}, "string");
  // round trip for well-formed hosts
  auto const u = puny::from_utf8 (host);
  bool const ace = host.substr (0, 4) == "xn--" || host.find (".xn--") != sv::npos || dec.unspecified;
  if (u.ok && !ace) {
    std::vector<char> s1, s2;
    auto const e = uri::encode (s1, with_host (c, host));
    auto const r = uri::decode (s2, e);
    if (r.index () != 1 || std::get<1> (r).authority->host != host) {
      c.fail ("round-trip", "decoding the encoded host of " + vf::esc (host) + " gives " +
              (r.index () == 1 ? vf::esc (std::get<1> (r).authority->host) : std::string{"an error"}));
    }
    c.tally ("round-trips");
  }
  if (b.view () != text) {
    c.fail ("input-changed", "the host was modified");
  }
  c.tally (!want ? "encode:unchanged" : u.ok ? "encode:punycode" : "encode:ill-formed");
  c.tally (dec.unspecified ? "decode:unspecified" : dec.v != puny::Verdict::ok ? "decode:error" : dec.changed ? "decode:punycode" : "decode:unchanged");
  if (want || dec.changed) {
    c.distinct (vf::hash_str (host));
  }
  c.sample ([&] { return vf::esc (host, 60) + " -> " + (want ? vf::esc (*want, 60) : std::string{"as it was"}) + ", decodes to " +
                         (dec.v == puny::Verdict::ok ? vf::esc (dec.text, 60) : std::string{"error"}); });
}

void enum_bytes (vf::Case& c) { both (c, gen::nth_string (c.idx, "a.\xC3\xA9\xE4\xFF-")); }
void enum_units (vf::Case& c) {
  static constexpr sv unit[] = {"a", ".", "\xC3\xBC", "\xE4\xBB\x96", "\xF0\x9F\x98\x80", "\xC3", "xn--", "-", "xn--tda"};
  std::string s;
  for (char const ch : gen::nth_string (c.idx, "012345678")) {
    s += unit[ch - '0'];
  }
  both (c, s);
}
void enum_ace (vf::Case& c) { both (c, "xn--" + gen::nth_string (c.idx, "-a9zE.\x80")); }
std::string label (vf::Rng& r) {
  switch (r.below (9)) {
  case 0: return "";
  case 1: return gen::word (r, 0, "");
  case 2:
  case 3: return puny::utf8 (gpu::text (r, 8, false, "abcXYZ019-_"));
  case 4: return "xn--" + puny::encode (gpu::text (r, 6, false, "abc019-"), false).text;
  case 5: return "xn--" + gpu::coded (r);
  case 6: {
    auto s = puny::utf8 (gpu::text (r, 6, false, "abc019-"));
    for (u64 n = 1 + r.below (2); n > 0 && !s.empty (); --n) {
      switch (r.below (3)) {
      case 0: s.resize (r.below (s.size ())); break;
      case 1: s[r.below (s.size ())] = static_cast<char> (r.below (256)); break;
      default: s.erase (r.below (s.size ()), 1);
      }
    }
    return s;
  }
  case 7: {
    static constexpr sv odd[] = {"xn-", "xn--", "XN--tda", "Xn--tda", "xN--bcher-kva", "xn", "x", "axn--tda", "xn---", "xn--a", "xn--\xC3\xBC", "xn--a-\xFF", "xn--99999999999999"};
    return std::string{r.pick (odd)};
  }
  default: return gen::bytes (r, r.below (6));
  }
}
void labels (vf::Case& c) {
  std::string s;
  for (u64 n = c.rng.chance (1, 30) ? c.rng.range (10, 60) : c.rng.range (1, 4); n > 0; --n) {
    s += label (c.rng);
    if (n > 1) {
      s += '.';
    }
  }
  both (c, s);
}
void dots (vf::Case& c) {
  // only U+002E separates labels
  static constexpr sv sep[] = {".", "\xE3\x80\x82", "\xEF\xBC\x8E", "\xEF\xBD\xA1", "\xC0\xAE", "..", "\xE2\x80\xA4"};
  std::string s;
  for (u64 n = c.rng.range (1, 4); n > 0; --n) {
    s += puny::utf8 (gpu::text (c.rng, 3, false, "ab"));
    s += c.rng.pick (sep);
  }
  both (c, s);
}
void longs (vf::Case& c) {
  static constexpr u64 lengths[] = {15, 16, 63, 64, 255, 256, 1000, 2000};
  std::string s;
  auto const n = lengths[c.idx % 8];
  auto const kind = c.idx / 8 % 3;
  std::u32string t;
  while (t.size () < n) {
    t += kind == 0 ? U'a' : c.rng.chance (1, 10) ? U'.' : gpu::scalar (c.rng, false);
  }
  s = puny::utf8 (t);
  if (kind == 2) {
    s = puny::host_encode (s).value_or (s);
  }
  both (c, s);
}

// more labels than narrow counters reach
void many (vf::Case& c) {
  static constexpr u64 counts[] = {127, 128, 255, 256, 257, 511, 512, 1000, 4096, 65535, 65536, 65537};
  auto const n = counts[c.idx % std::size (counts)];
  static constexpr sv unit[] = {"a", "", "\xC3\xBC", "xn--tda", "xn-", "\xE4\xBB\x96z"};
  sv const plain = unit[c.rng.below (2)];
  auto const mixed = c.rng.chance (1, 3);
  std::string s;
  for (u64 k = 0; k < n; ++k) {
    s += mixed || k + 3 > n || (k > 250 && k < 260) ? unit[c.rng.below (std::size (unit))] : plain;
    if (k + 1 < n || c.rng.chance (1, 4)) {
      s += '.';
    }
  }
  c.tally ("many-labels");
  both (c, s);
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"enum-bytes", gen::count_strings (7, 5), gen::count_strings (7, 7), enum_bytes},
              {"enum-units", gen::count_strings (9, 4), gen::count_strings (9, 6), enum_units},
              {"enum-ace", gen::count_strings (7, 5), gen::count_strings (7, 7), enum_ace},
              {"labels", 250000, 10000000, labels},
              {"dots", 50000, 2000000, dots},
              {"long", 48, 960, longs},
              {"many", 6, 1200, many}};
  return r.main (argc, argv);
}
