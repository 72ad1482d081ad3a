// C02: components are exactly the substrings the RFC assigns, as views in the caller's text.
#include "corpus_uri.hpp"
#include "oracle_uri.hpp"
#include "parts_common.hpp"

using pc::osv;
using pc::sv;

namespace {

void compare (vf::Case& c, sv t, char const* api, uri::parts const& got, orc::Parts const& want) {
  auto ctx = [&] { return std::string{api} + " " + vf::esc (t) + ": "; };
  auto one = [&] (char const* name, osv const& g, osv const& w) {
    if (g.has_value () != w.has_value ()) {
      c.fail (std::string{name} + "-presence", ctx () + name + " is " + pc::show (g) + ", want " + pc::show (w));
      return;
    }
    if (!g) {
      return;
    }
    if (*g != *w) {
      c.fail (std::string{name} + "-text", ctx () + name + " is " + pc::show (g) + ", want " + pc::show (w));
    } else if (!g->empty () ? g->data () != w->data ()
                            : g->data () != nullptr && (g->data () < t.data () || g->data () > t.data () + t.size ())) {
      c.fail (std::string{name} + "-place", ctx () + name + " is not a view of the right part of the input");
    }
  };
  one ("scheme", got.scheme, want.scheme);
  if (got.authority.has_value () != want.has_auth) {
    c.fail ("authority-presence", ctx () + (want.has_auth ? "authority is absent" : "unexpected authority") + " " + pc::show (got));
  } else if (want.has_auth) {
    one ("userinfo", got.authority->userinfo, want.userinfo);
    one ("host", got.authority->host, want.host);
    one ("port", got.authority->port, want.port);
  }
  if (got.path.absolute != want.absolute ()) {
    c.fail ("absolute", ctx () + "path absolute is " + (got.path.absolute ? "true" : "false"));
  }
  auto const segs = want.segments ();
  if (got.path.segments.size () != segs.size ()) {
    c.fail ("segment-count", ctx () + std::to_string (got.path.segments.size ()) + " segments, want " + std::to_string (segs.size ()) +
                               " " + pc::show (got));
  } else {
    for (std::size_t i = 0; i < segs.size (); ++i) {
      one ("segment", got.path.segments[i], segs[i]);
    }
  }
  one ("query", got.query, want.query);
  one ("fragment", got.fragment, want.fragment);
}

}  // namespace

void check_text (vf::Case& c, sv t) {
  auto const want = orc::parse (t, false);
  if (!want) {
    c.tally ("skipped-not-reference");
    return;
  }
  auto const ref = uri::split_reference (t);
  if (!ref) {
    c.tally ("not-accepted");  // C01's business
    return;
  }
  compare (c, t, "split_reference", *ref, *want);
  if (want->scheme) {
    if (auto const u = uri::split (t)) {
      compare (c, t, "split", *u, *want);
      c.tally ("uri");
    }
  } else {
    c.tally ("relative");
  }
  unsigned const shape = (want->scheme ? 1U : 0U) | (want->has_auth ? 2U : 0U) | (want->userinfo ? 4U : 0U) | (want->port ? 8U : 0U) |
                         (want->query ? 16U : 0U) | (want->fragment ? 32U : 0U) | (want->path.empty () ? 64U : 0U) |
                         (want->absolute () ? 128U : 0U);
  c.run.tallies["shape:" + std::to_string (shape)] += 1;
  if (want->has_auth || want->query || want->fragment || want->segments ().size () > 1) {
    c.distinct (vf::hash_str (t));
  }
  c.sample ([&] { return vf::esc (t, 80) + " -> " + pc::show (*ref); });
}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = corpus::phases ();
  return r.main (argc, argv);
}
