// C16: the same inputs under every locale the process can select.
#include <clocale>
#include <locale>

#include "ops.hpp"

namespace {
using vf::u64;

// A C++ global locale whose facets are all unhelpful.
struct HostileCtype : std::ctype<char> {
  HostileCtype () : std::ctype<char>{table ()} {}
  static mask const* table () {
    static std::vector<mask> const t (table_size, static_cast<mask> (alpha | digit | xdigit | lower | upper | space | punct | cntrl));
    return t.data ();
  }

protected:
  char do_tolower (char c) const override { return static_cast<char> (c ^ 0x20); }
  char do_toupper (char c) const override { return static_cast<char> (c + 1); }
  char const* do_tolower (char* a, char const* b) const override {
    for (; a != b; ++a) {
      *a = do_tolower (*a);
    }
    return b;
  }
  char const* do_toupper (char* a, char const* b) const override {
    for (; a != b; ++a) {
      *a = do_toupper (*a);
    }
    return b;
  }
  char do_widen (char c) const override { return static_cast<char> (c + 1); }
  char do_narrow (char c, char) const override { return static_cast<char> (c - 1); }
};
struct HostileNum : std::numpunct<char> {
protected:
  char do_thousands_sep () const override { return '/'; }
  char do_decimal_point () const override { return ':'; }
  std::string do_grouping () const override { return "\1"; }
};
struct HostileCollate : std::collate<char> {
protected:
  int do_compare (char const*, char const*, char const*, char const*) const override { return 0; }
  std::string do_transform (char const*, char const*) const override { return "same"; }
  long do_hash (char const*, char const*) const override { return 42; }
};

struct Mode {
  char const* name;
  std::string locale;
  int kind;  // 0 setlocale, 1 std::locale::global named, 2 hostile facets, 3 uselocale
};

std::vector<Mode> const& modes () {
  static std::vector<Mode> const m = [] {
    std::vector<Mode> r;
    static char const* const names[] = {"C", "POSIX", "C.utf8", "", "vf_latin1", "vf_latin9", "vf_turkish", "vf_turkish8", "vf_german", "vf_cyrillic",
                                        "vf_greek"};
    for (auto const* n : names) {
      r.push_back ({"setlocale", n, 0});
      r.push_back ({"uselocale", n, 3});
      r.push_back ({"std::locale::global", n, 1});
    }
    r.push_back ({"hostile-facets", "", 2});
    return r;
  }();
  return m;
}

void reset () {
  std::locale::global (std::locale::classic ());
  std::setlocale (LC_ALL, "C");
  uselocale (LC_GLOBAL_LOCALE);
}
// false if the locale does not exist here
bool select (Mode const& m, locale_t& made) {
  made = nullptr;
  switch (m.kind) {
  case 0: return std::setlocale (LC_ALL, m.locale.c_str ()) != nullptr;
  case 1:
    try {
      std::locale::global (std::locale{m.locale});
      return true;
    } catch (std::runtime_error const&) {
      return false;
    }
  case 2:
    std::locale::global (std::locale{std::locale{std::locale{std::locale::classic (), new HostileCtype}, new HostileNum}, new HostileCollate});
    return true;
  default:
    made = newlocale (LC_ALL_MASK, m.locale.c_str (), nullptr);
    if (made == nullptr) {
      return false;
    }
    uselocale (made);
    return true;
  }
}

void compare (vf::Case& c, ops::Input const& in) {
  c.note (in.show ());
  auto const& all = ops::list ();
  reset ();
  std::vector<std::string> want;
  for (auto const& op : all) {
    want.push_back (op.fn (in));
  }
  // two locales per case, in turn, the second selected on top of the first
  for (u64 k = 0; k < 2; ++k) {
    auto const& m = modes ()[(c.idx * 2 + k + c.idx / modes ().size ()) % modes ().size ()];
    locale_t made;
    if (!select (m, made)) {
      c.tally ("locale-missing");
      continue;
    }
    // the locale does what it is there for: seen by C classification (the monitor's own witness)
    if (std::isalpha (0xE9) != 0) {
      c.tally ("locale-with-letters-above-7f");
    }
    if (std::tolower ('I') != 'i' || std::toupper ('i') != 'I') {
      c.tally ("locale-with-unusual-case");
    }
    std::string bad;
    for (std::size_t i = 0; i < all.size (); ++i) {
      auto const got = all[i].fn (in);
      if (got != want[i]) {
        bad = std::string{all[i].name} + " under " + m.name + "(\"" + m.locale + "\") gives " + vf::esc (got, 300) + ", otherwise " + vf::esc (want[i], 300);
        break;
      }
    }
    c.tally (m.name);
    auto const here = std::string{m.name} + m.locale;
    if (made != nullptr) {
      uselocale (LC_GLOBAL_LOCALE);
      freelocale (made);
    }
    if (!bad.empty ()) {
      reset ();
      c.fail ("differs", bad + "; input " + in.show ());
      return;
    }
    c.distinct (vf::hash_str (in.show (), vf::hash_str (here)));
  }
  reset ();
  c.sample ([&] { return in.show (); });
}

void mixed (vf::Case& c) { compare (c, ops::input (c.rng, false)); }

// every byte where a letter, digit or hex digit is expected, under every locale
constexpr std::string_view templates[] = {"?:", "a?:", "s://?", "s://[v?.a]", "s://[v1.?]", "s://[?::]", "s://[::?]", "%?1", "%1?", "?", "s://h:?",
                                          "s://1.2.3.?", "#?", "s:?#?", "//?@h", "??"};
void bytes_everywhere (vf::Case& c) {
  auto const& t = templates[c.idx % std::size (templates)];
  auto const b = static_cast<char> (c.idx / std::size (templates) % 256);
  auto const& m = modes ()[c.idx / (256 * std::size (templates)) % modes ().size ()];
  std::string s;
  for (char const ch : t) {
    s += ch == '?' ? b : ch;
  }
  c.note (s);
  corpus::Exact const e{s};
  auto look = [&] {
    std::string r = ops::opt (uri::split_reference (e.view ())) + ops::opt (uri::split (e.view ())) + ops::opt (uri::join ("s:", e.view ()));
    r += uri::pctdecode (e.view ());
    r += uri::needs_pctencode (e.view (), uri::pctencode_set::component) ? '!' : '=';
    uri::parts p;
    p.scheme = e.view ();
    r += p.valid () ? 'v' : '-';
    p.scheme = "s";
    p.ensure_authority ().host = e.view ();
    r += p.valid () ? 'v' : '-';
    r += ops::punycoded (uri::punycode::decode (e.view ()));
    // character classes, and single characters in either case
    auto one = [&] (auto f) { r += uri::rule{e.view ().substr (0, 1)}.concat (f).done () ? '1' : '0'; };
    one (uri::alpha);
    one (uri::digit);
    one (uri::hexdig);
    one (uri::single_char ('i'));
    one (uri::single_char ('I'));
    one (uri::single_char ('\xE9'));
    one (uri::single_char ('\xC9'));
    one (uri::char_range ('a', 'z'));
    return r;
  };
  reset ();
  auto const want = look ();
  locale_t made;
  if (!select (m, made)) {
    c.tally ("locale-missing");
    reset ();
    return;
  }
  auto const got = look ();
  if (made != nullptr) {
    uselocale (LC_GLOBAL_LOCALE);
    freelocale (made);
  }
  reset ();
  if (got != want) {
    c.fail ("byte-differs", std::string{"under "} + m.name + "(\"" + m.locale + "\") " + vf::esc (s) + " gives " + vf::esc (got, 300) + ", otherwise " + vf::esc (want, 300));
  }
  c.tally ("bytes");
  c.distinct (vf::mix (c.idx));
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  vf::Runner r;
  u64 const sweep = 256 * std::size (templates) * modes ().size ();
  r.phases = {{"bytes-everywhere", sweep, sweep, bytes_everywhere}, {"mixed", 60000, 2000000, mixed}};
  return r.main (argc, argv);
}
