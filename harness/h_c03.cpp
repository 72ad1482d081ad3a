// C03: composing the parsed components reproduces the text; every way of writing agrees.
#include "corpus_uri.hpp"
#include "oracle_uri.hpp"
#include "parts_common.hpp"

using pc::sv;

namespace {

// A stream buffer that only offers overflow(): every byte goes through the virtual interface.
class Bytewise : public std::streambuf {
public:
  std::string text;

protected:
  int_type overflow (int_type ch) override {
    if (ch != traits_type::eof ()) {
      text += static_cast<char> (ch);
    }
    return ch;
  }
};

void expect (vf::Case& c, char const* key, sv t, std::string const& got, sv want) {
  if (got != want) {
    c.fail (key, std::string{key} + " of " + vf::esc (t) + " gives " + vf::esc (got) + ", want " + vf::esc (want));
  }
}

void round (vf::Case& c, sv t, uri::parts const& p, orc::Parts const& o, bool is_uri) {
  auto const text = uri::compose (p);
  expect (c, "compose", t, text, t);
  {
    std::ostringstream os;
    auto& ret = uri::compose (os, p);
    if (&ret != &os) {
      c.fail ("compose-stream-ret", "compose to a stream does not return that stream");
    }
    expect (c, "compose-stream", t, os.str (), t);
  }
  {
    std::ostringstream os;
    os << p;
    expect (c, "insert", t, os.str (), t);
  }
  {
    // appends to what is already there, through a stream with its own buffer
    Bytewise b;
    std::ostream os{&b};
    os << '<' << p << '>';
    expect (c, "insert-bytewise", t, b.text, "<" + std::string{t} + ">");
  }
  {
    std::ostringstream os;
    os << p.path;
    expect (c, "insert-path", t, os.str (), o.path);
  }
  if (p.authority) {
    std::ostringstream os;
    os << *p.authority;
    expect (c, "insert-authority", t, os.str (), *orc::authority_text (o));
  }
  auto const again = is_uri ? uri::split (text) : uri::split_reference (text);
  if (!again) {
    c.fail ("reparse", "the composition of " + vf::esc (t) + " does not parse: " + vf::esc (text));
  } else {
    if (!(*again == p) || !pc::same_parts (*again, p)) {
      c.fail ("reparse-equal", "the composition of " + vf::esc (t) + " parses to other components: " + pc::show (*again));
    }
    expect (c, "recompose", t, uri::compose (*again), t);
  }
}

}  // namespace

void check_text (vf::Case& c, sv t) {
  auto const o = orc::parse (t, false);
  if (!o) {
    c.tally ("skipped-not-reference");
    return;
  }
  if (auto const r = uri::split_reference (t)) {
    round (c, t, *r, *o, false);
    c.tally ("reference");
    if (o->has_auth || o->query || o->fragment || o->path.size () > 1) {
      c.distinct (vf::hash_str (t));
    }
    c.sample ([&] { return vf::esc (t, 100); });
  }
  if (o->scheme) {
    if (auto const u = uri::split (t)) {
      round (c, t, *u, *o, true);
      c.tally ("uri");
    }
  }
}

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = corpus::phases ();
  return r.main (argc, argv);
}
