// C25: where result texts live, and that inputs are never written.
#include <memory_resource>

#include "gen_puny.hpp"
#include "gen_parts.hpp"
#include "corpus_uri.hpp"
#include "oracle_pct.hpp"
#include "oracle_puny.hpp"
#include "oracle_uri.hpp"
#include "uri/parts.hpp"

using pc::sv;
using vf::u64;

namespace {

// Text in memory the process may read but not write.
class ReadOnly {
public:
  explicit ReadOnly (std::size_t pages = 4) : size_{pages * 4096} {
    void* const p = ::mmap (nullptr, size_ + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      std::perror ("mmap");
      std::exit (2);
    }
    base_ = static_cast<char*> (p);
    ::mprotect (base_ + size_, 4096, PROT_NONE);
  }
  ~ReadOnly () { ::munmap (base_, size_ + 4096); }
  ReadOnly (ReadOnly const&) = delete;
  void open () {
    ::mprotect (base_, size_, PROT_READ | PROT_WRITE);
    next_ = base_ + size_;
  }
  // from the end of the area downwards: the last text touches the guard page
  sv put (sv s) {
    if (s.size () > static_cast<std::size_t> (next_ - base_)) {
      return s;  // does not fit; left where it is
    }
    next_ -= s.size ();
    if (!s.empty ()) {
      std::memcpy (next_, s.data (), s.size ());
    }
    return {next_, s.size ()};
  }
  void* object (std::size_t n) {
    next_ = reinterpret_cast<char*> ((reinterpret_cast<std::uintptr_t> (next_) - n) / 64 * 64);
    return next_;
  }
  void close () { ::mprotect (base_, size_, PROT_READ); }

private:
  std::size_t size_;
  char* base_;
  char* next_ = nullptr;
};
ReadOnly& area () {
  static ReadOnly a{64};
  return a;
}

bool inside (sv s, sv whole) {
  std::less_equal<> const le;
  return le (whole.data (), s.data ()) && le (s.data () + s.size (), whole.data () + whole.size ());
}
std::vector<std::pair<std::string, std::pair<void const*, std::size_t>>> places (uri::parts const& p) {
  std::vector<std::pair<std::string, std::pair<void const*, std::size_t>>> r;
  pc::each_view (p, [&r] (char const* n, sv s) { r.push_back ({n, {s.data (), s.size ()}}); });
  return r;
}

// Overwrites dead stack and heap, so that a view of dead storage no longer reads as it did.
// (volatile: the compiler must keep the writes)
__attribute__ ((noinline)) void scribble () {
  char volatile buf[6000];
  for (auto& b : buf) {
    b = 'Z';
  }
  static constexpr std::size_t sizes[] = {8, 16, 24, 32, 40, 48, 64, 80, 96, 128, 192, 256, 384, 512, 1024, 2048, 4096};
  std::vector<std::unique_ptr<char[]>> keep;
  keep.reserve (std::size (sizes) * 4);
  for (auto const n : sizes) {
    for (int k = 0; k < 4; ++k) {
      keep.emplace_back (new char[n]);
      std::memset (keep.back ().get (), 'Z', n);
    }
  }
}

// Every non-empty text lies inside one of the ranges.
void within (vf::Case& c, char const* op, uri::parts const& p, std::initializer_list<sv> ranges, std::string const& desc) {
  pc::each_view (p, [&] (char const* field, sv s) {
    if (s.empty ()) {
      return;
    }
    for (auto const r : ranges) {
      if (inside (s, r)) {
        return;
      }
    }
    c.fail (std::string{op} + ":outside", std::string{op} + " of " + desc + ": the " + field + " " + vf::esc (s, 60) + " does not lie in the caller's text");
  });
}

void parse_check (vf::Case& c, sv t) {
  auto& a = area ();
  a.open ();
  auto const text = a.put (t);
  a.close ();
  for (bool const uri_only : {false, true}) {
    auto const r = uri_only ? uri::split (text) : uri::split_reference (text);
    if (!r) {
      continue;
    }
    auto const desc = vf::esc (t, 200);
    auto const before = pc::show (*r);
    scribble ();
    within (c, uri_only ? "split" : "split_reference", *r, {text}, desc);
    if (pc::show (*r) != before) {
      c.fail ("parse:temporary", "the components of " + desc + " change after the call: " + before + " then " + pc::show (*r));
    }
    auto const* const where = &*r;
    auto const at = places (*r);
    (void)r->valid ();
    (void)uri::compose (*r);
    (void)static_cast<std::string> (r->path);
    (void)static_cast<std::filesystem::path> (r->path);
    (void)(*r == *where);
    if (places (*r) != at) {
      c.fail ("const:changed", "validating, composing, converting or comparing changes the components of " + desc);
    }
    c.tally ("parsed");
  }
  if (std::string{t} != text) {
    c.fail ("parse:modified", "parsing modifies the text");
  }
  c.distinct (vf::hash_str (t));
}

void join_text_check (vf::Case& c) {
  auto const b = gen::uri (c.rng), r = gen::reference (c.rng);
  c.note (b + " + " + r);
  auto& a = area ();
  a.open ();
  auto const base = a.put (b), ref = a.put (r);
  a.close ();
  auto const desc = vf::esc (b, 150) + " and " + vf::esc (r, 150);
  for (bool const strict : {true, false}) {
    auto const j = uri::join (base, ref, strict);
    if (!j) {
      c.tally ("join-none");
      continue;
    }
    auto const before = pc::show (*j);
    scribble ();
    within (c, "join", *j, {base, ref}, desc);
    if (pc::show (*j) != before) {
      c.fail ("join:temporary", "the result of resolving " + desc + " changes after the call");
    }
    c.tally ("joined");
  }
  c.distinct (vf::hash_str (b) ^ (7 * vf::hash_str (r)));
  c.sample ([&] { return desc; });
}

// A parts object whose own bytes, and whose texts, cannot be written.
struct Locked {
  uri::parts const* p;
  std::vector<sv> ranges;
};
uri::parts settle (ReadOnly& a, uri::parts p) {
  auto mv = [&a] (std::optional<sv>& s) {
    if (s && s->data () != nullptr) {
      s = a.put (*s);
    }
  };
  mv (p.scheme);
  if (p.authority) {
    mv (p.authority->userinfo);
    if (p.authority->host.data () != nullptr) {
      p.authority->host = a.put (p.authority->host);
    }
    mv (p.authority->port);
  }
  for (auto& s : p.path.segments) {
    if (s.data () != nullptr) {
      s = a.put (s);
    }
  }
  mv (p.query);
  mv (p.fragment);
  return p;
}

void join_parts_check (vf::Case& c) {
  auto const o1 = gp::tuple (c.rng, static_cast<unsigned> (c.rng.below (3)), 6), o2 = gp::tuple (c.rng, static_cast<unsigned> (c.rng.below (3)), 6);
  auto& a = area ();
  a.open ();
  auto* const base = new (a.object (sizeof (uri::parts))) uri::parts (settle (a, o1.p));
  auto* const ref = new (a.object (sizeof (uri::parts))) uri::parts (settle (a, o2.p));
  a.close ();
  auto const desc = pc::show (*base) + " and " + pc::show (*ref);
  c.note (desc);
  auto const at1 = places (*base), at2 = places (*ref);
  std::vector<std::pair<std::string, uri::parts>> results;
  for (bool const strict : {true, false}) {
    results.emplace_back ("join", uri::join (*base, *ref, strict));
  }
  if (places (*base) != at1 || places (*ref) != at2) {
    c.fail ("join-parts:modified", "resolving modifies " + desc);
  }
  std::vector<sv> texts;
  pc::each_view (*base, [&] (char const*, sv s) { texts.push_back (s); });
  pc::each_view (*ref, [&] (char const*, sv s) { texts.push_back (s); });
  auto const show0 = pc::show (results[0].second), show1 = pc::show (results[1].second);
  // the component objects end; the texts stay
  a.open ();
  base->~parts ();
  ref->~parts ();
  std::memset (static_cast<void*> (base), 'Z', sizeof *base);
  std::memset (static_cast<void*> (ref), 'Z', sizeof *ref);
  scribble ();
  if (pc::show (results[0].second) != show0 || pc::show (results[1].second) != show1) {
    c.fail ("join-parts:temporary", "the result of resolving " + desc + " depends on the component objects staying alive");
  }
  for (auto const& [op, r] : results) {
    pc::each_view (r, [&] (char const* field, sv s) {
      if (!s.empty () && std::none_of (texts.begin (), texts.end (), [s] (sv w) { return inside (s, w); })) {
        c.fail ("join-parts:outside", "resolving " + desc + ": the " + field + " " + vf::esc (s, 60) + " lies in neither input");
      }
    });
  }
  c.tally ("joined-parts");
  c.distinct (vf::hash_str (desc));
}

// A container that moves its content whenever it grows past what was reserved.
class Moving {
public:
  using value_type = char;
  using iterator = char*;
  using const_iterator = char const*;
  using reference = char&;
  using const_reference = char const&;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  void clear () { size_ = 0; }
  void reserve (std::size_t n) {
    if (n > cap_) {
      move_to (n);
    }
  }
  void push_back (char const ch) {
    if (size_ == cap_) {
      move_to (cap_ + 1 + cap_ / 2);
    }
    p_[size_++] = ch;
  }
  char* data () { return p_.get (); }
  char const* data () const { return p_.get (); }
  std::size_t size () const { return size_; }
  std::size_t capacity () const { return cap_; }
  bool empty () const { return size_ == 0; }
  char* begin () { return p_.get (); }
  char* end () { return p_.get () + size_; }
  char const* begin () const { return p_.get (); }
  char const* end () const { return p_.get () + size_; }
  unsigned moves = 0;

private:
  void move_to (std::size_t n) {
    std::unique_ptr<char[]> q{new char[n]};
    std::memset (q.get (), '?', n);
    if (size_ != 0) {
      std::memcpy (q.get (), p_.get (), size_);
      std::memset (p_.get (), '!', cap_);
      ++moves;
    }
    old_.push_back (std::move (p_));  // kept: a stale view reads '!'
    p_ = std::move (q);
    cap_ = n;
  }
  std::unique_ptr<char[]> p_;
  std::vector<std::unique_ptr<char[]>> old_;
  std::size_t size_ = 0, cap_ = 0;
};

struct Want {
  std::vector<std::string> texts;  // in each_view order
};
Want want_encode (uri::parts const& p) {
  Want w;
  pc::each_view (p, [&w] (sv field, sv s) {
    w.texts.push_back (field == "userinfo"   ? pct::encode (s, pct::Set::userinfo)
                       : field == "host"     ? puny::host_encode (s).value_or (std::string{s})
                       : field == "segment"  ? pct::encode (s, pct::Set::path)
                       : field == "query"    ? pct::encode (s, pct::Set::query)
                       : field == "fragment" ? pct::encode (s, pct::Set::fragment)
                                             : std::string{s});
  });
  return w;
}

// Result texts: unchanged ones are the original views, changed ones lie in the store.
template <typename Store>
void coded_check (vf::Case& c, std::string const& op, uri::parts const& from, uri::parts const& got, Store const& store, std::vector<std::string> const* want) {
  std::vector<std::pair<sv, sv>> both;
  std::vector<std::string> fields;
  pc::each_view (from, [&] (char const* f, sv s) {
    both.push_back ({s, {}});
    fields.emplace_back (f);
  });
  std::size_t i = 0;
  bool mismatch = false;
  pc::each_view (got, [&] (char const*, sv s) {
    if (i < both.size ()) {
      both[i].second = s;
    } else {
      mismatch = true;
    }
    ++i;
  });
  if (mismatch || i != both.size ()) {
    return;  // which fields exist is another property
  }
  sv const whole{store.data () == nullptr ? "" : &*store.data (), store.size ()};
  for (i = 0; i < both.size (); ++i) {
    auto const [before, after] = both[i];
    bool const changed = want != nullptr ? (*want)[i] != before : before != after;
    if (changed) {
      c.tally ("converted");
      if (!after.empty () && !inside (after, whole)) {
        c.fail (op + ":not-in-store", op + " of " + pc::show (from) + ": the converted " + fields[i] + " " + vf::esc (after, 60) + " does not lie in the store");
      }
    } else {
      c.tally ("kept");
      // text with '%' counts as needing decoding even where nothing changes
      bool const may_store = op.starts_with ("decode") && (before.find ('%') != sv::npos || before.find ("xn--") != sv::npos);
      if (may_store) {
        if (!after.empty () && !inside (after, whole) && after.data () != before.data ()) {
          c.fail (op + ":outside", op + " of " + pc::show (from) + ": the " + fields[i] + " lies neither in the store nor in the original text");
        }
      } else if (!after.empty () && (after.data () != before.data () || after.size () != before.size ())) {
        c.fail (op + ":not-original", op + " of " + pc::show (from) + ": the " + fields[i] + " needs no conversion but is not the original view");
      }
    }
    if (want != nullptr && after != (*want)[i]) {
      c.fail (op + ":text", op + " of " + pc::show (from) + ": the " + fields[i] + " reads " + vf::esc (after, 100) + ", want " + vf::esc ((*want)[i], 100));
    }
  }
}

template <typename Store> void fill (vf::Case& c, Store& s) {
  switch (c.rng.below (4)) {
  case 0: break;
  case 1: s.reserve (c.rng.below (300)); break;
  default:
    for (u64 n = c.rng.below (200); n > 0; --n) {
      s.push_back (static_cast<char> (c.rng.below (256)));
    }
    break;
  }
}

template <typename Store> void codec (vf::Case& c, char const* name, uri::parts const& p, Store& store) {
  std::string const enc = std::string{"encode/"} + name, dec = std::string{"decode/"} + name;
  auto const at = places (p);
  auto const want = want_encode (p);
  fill (c, store);
  for (int round = 0; round < 2; ++round) {  // the second time over the first one's leavings
    auto const e = uri::encode (store, p);
    scribble ();
    coded_check (c, enc, p, e, store, &want.texts);
    if (round == 0 && c.rng.chance (1, 2)) {
      continue;
    }
    Store second;
    fill (c, second);
    auto const at_e = places (e);
    auto const content = std::string{store.data () == nullptr ? "" : &*store.data (), store.size ()};
    auto const d = uri::decode (second, e);
    scribble ();
    if (auto const* const q = std::get_if<uri::parts> (&d)) {
      coded_check (c, dec, e, *q, second, nullptr);
      c.tally ("decoded");
    } else {
      c.tally ("decode-error");
    }
    if (places (e) != at_e || content != std::string{store.data () == nullptr ? "" : &*store.data (), store.size ()}) {
      c.fail (dec + ":modified", "decoding modifies its input " + pc::show (e));
    }
  }
  {
    Store other;
    fill (c, other);
    auto const d = uri::decode (other, p);  // text nobody encoded
    scribble ();
    if (auto const* const q = std::get_if<uri::parts> (&d)) {
      std::vector<std::string> w;
      pc::each_view (p, [&w] (sv field, sv s) {
        w.push_back (field == "host" ? std::string{s} : field == "scheme" || field == "port" ? std::string{s} : pct::decode (s));
      });
      // the host's decoded text is checked elsewhere: here only where it lies
      std::size_t i = 0;
      pc::each_view (*q, [&] (sv field, sv s) {
        if (i < w.size () && (field == "host" || field == "scheme" || field == "port")) {
          w[i] = std::string{s};
        }
        ++i;
      });
      coded_check (c, dec, p, *q, other, i == w.size () ? &w : nullptr);
      c.tally ("decoded-raw");
    }
  }
  if (places (p) != at) {
    c.fail (enc + ":modified", "encoding or decoding modifies its input " + pc::show (p));
  }
}

void codec_check (vf::Case& c) {
  u64 const segs = c.rng.chance (1, 4) ? 20 + c.rng.below (50) : 5;
  auto const o = gp::tuple (c.rng, static_cast<unsigned> (c.rng.below (9)), segs);
  auto o2 = o.clone ();
  if (o2.p.authority && c.rng.chance (1, 2)) {
    std::string h;
    for (u64 n = 1 + c.rng.below (3); n > 0; --n) {
      h += c.rng.chance (1, 4) ? "xn--" + gpu::coded (c.rng) : puny::utf8 (gpu::text (c.rng, 6, false, "abc"));
      h += n > 1 ? "." : "";
    }
    o2.p.authority->host = o2.hold (h);
  }
  // scheme and port are to be made of legal characters
  if (o2.p.scheme) {
    o2.p.scheme = o2.hold (gen::scheme (c.rng));
  }
  if (o2.p.authority && o2.p.authority->port) {
    o2.p.authority->port = o2.hold (gen::port (c.rng));
  }
  auto& a = area ();
  a.open ();
  auto* const p = new (a.object (sizeof (uri::parts))) uri::parts (settle (a, o2.p));
  a.close ();
  c.note (pc::show (*p));
  switch (c.idx % 4) {
  case 0: {
    std::vector<char> s;
    codec (c, "vector", *p, s);
    break;
  }
  case 1: {
    std::string s;
    codec (c, "string", *p, s);
    break;
  }
  case 2: {
    Moving s;
    codec (c, "moving", *p, s);
    break;
  }
  default: {
    std::pmr::vector<char> s;
    codec (c, "pmr", *p, s);
    break;
  }
  }
  c.distinct (vf::hash_str (pc::show (*p)));
  c.sample ([&] { return pc::show (*p); });
  a.open ();
  p->~parts ();
}

void grammar (vf::Case& c) {
  auto const t = gen::reference (c.rng);
  c.note (t);
  parse_check (c, t);
}
}  // namespace

void check_text (vf::Case& c, sv t) { parse_check (c, t); }

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"parse", 150000, 5000000, grammar},
              {"enum-struct", gen::count_strings (6, 5), gen::count_strings (6, 7), corpus::enum_struct},
              {"join-text", 150000, 5000000, join_text_check},
              {"join-parts", 100000, 3000000, join_parts_check},
              {"codec", 100000, 3000000, codec_check}};
  return r.main (argc, argv);
}
