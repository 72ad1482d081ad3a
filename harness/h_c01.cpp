// C01: acceptance equals the RFC 3986 language.
#include "corpus_uri.hpp"
#include "oracle_uri.hpp"
#include "uri/uri.hpp"

void check_text (vf::Case& c, std::string_view t) {
  auto const want_uri = orc::parse (t, true);
  auto const want_ref = orc::parse (t, false);
  bool const got_uri = uri::split (t).has_value ();
  bool const got_ref = uri::split_reference (t).has_value ();
  if (got_uri != want_uri.has_value ()) {
    c.fail ("uri", std::string{"split "} + (got_uri ? "accepts a string that is not a URI: " : "rejects a URI: ") + vf::esc (t));
  }
  if (got_ref != want_ref.has_value ()) {
    c.fail ("ref", std::string{"split_reference "} +
                     (got_ref ? "accepts a string that is not a URI-reference: " : "rejects a URI-reference: ") + vf::esc (t));
  }
  c.tally (want_uri ? "is-uri" : want_ref ? "is-relative-ref" : "is-neither");
  if (want_ref) {
    c.distinct (vf::hash_str (t));
    if (want_ref->has_auth) {
      auto const h = want_ref->host;
      c.tally (h.empty () ? "host:empty" : h[0] == '[' ? (h[1] == 'v' || h[1] == 'V' ? "host:future" : "host:ipv6")
                                          : orc::ipv4_ok (h) ? "host:ipv4" : "host:name");
    }
  } else if (t.size () > 1) {
    // near miss: one byte shorter or longer prefix is in the language
    if (orc::parse (t.substr (0, t.size () - 1), false)) {
      c.tally ("near-miss");
      c.distinct (vf::hash_str (t));
    }
  }
  c.sample ([&] { return vf::esc (t, 80) + (want_uri ? " URI" : want_ref ? " relative" : " rejected"); });
}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = corpus::phases ();
  return r.main (argc, argv);
}
