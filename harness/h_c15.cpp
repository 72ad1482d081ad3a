// C15: random grammars built from the combinators against an independent interpreter of
// their documentation (a recursive-descent recogniser over the same description).
#include <memory>

#include "gen_uri.hpp"
#include "uri/rule.hpp"
#include "vf.hpp"

using gen::sv;
using vf::u64;
using uri::rule;

namespace {

struct Node;
using NodeP = Node const*;

enum class Term { chr, range, alpha, digit, hexdig, pred };
struct Terminal {
  Term kind;
  char a = 0, b = 0;
  std::string set;  // for pred
};
enum class Op { concat, optional, star, alternative };
struct Item {
  Op op;
  std::vector<NodeP> args;
  unsigned min = 0, max = std::numeric_limits<unsigned>::max ();
  bool default_limits = false;
  int accept = -1;      // action id
  int accept_form = 0;  // lambda / std::function / function pointer
};
struct Node {
  bool terminal = false;
  Terminal t;
  std::vector<Item> items;
};

struct Action {
  int id;
  std::ptrdiff_t pos;
  std::size_t len;
  bool operator== (Action const&) const = default;
};

// ---- the reading of the documentation
char lower (char c) { return c >= 'A' && c <= 'Z' ? static_cast<char> (c + 32) : c; }
bool term_ok (Terminal const& t, char c) {
  auto is_letter = [] (char x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); };
  switch (t.kind) {
  case Term::chr: return lower (c) == lower (t.a);
  case Term::range: return lower (c) >= lower (t.a) && lower (c) <= lower (t.b);
  case Term::alpha: return is_letter (c);
  case Term::digit: return c >= '0' && c <= '9';
  case Term::hexdig: return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
  case Term::pred: return t.set.find (c) != t.set.npos;
  }
  return false;
}
struct Model {
  sv text;
  u64 limit = 20000;
  u64 steps = 0;
  bool empty_repeat = false;  // a repeated item matched empty text: how often it may do so is open
  struct Result {
    bool ok = false;
    std::size_t len = 0;
    std::vector<Action> acts;
  };
  Result match (NodeP n, std::size_t pos) {
    Result r;
    if (++steps > limit) {
      return r;
    }
    if (n->terminal) {
      if (pos < text.size () && term_ok (n->t, text[pos])) {
        r.ok = true;
        r.len = 1;
      }
      return r;
    }
    std::size_t p = pos;
    for (auto const& it : n->items) {
      auto take = [&] (Result const& m) {
        r.acts.insert (r.acts.end (), m.acts.begin (), m.acts.end ());
        if (it.accept >= 0) {
          r.acts.push_back ({it.accept, static_cast<std::ptrdiff_t> (p), m.len});
        }
        p += m.len;
      };
      bool ok = false;
      switch (it.op) {
      case Op::concat:
        if (auto const m = match (it.args[0], p); m.ok) {
          take (m);
          ok = true;
        }
        break;
      case Op::optional:
        if (auto const m = match (it.args[0], p); m.ok) {
          take (m);
        }
        ok = true;
        break;
      case Op::alternative:
        for (auto const a : it.args) {
          if (auto const m = match (a, p); m.ok) {
            take (m);
            ok = true;
            break;
          }
        }
        break;
      case Op::star: {
        unsigned count = 0;
        while (count < it.max && steps <= limit) {
          auto const m = match (it.args[0], p);
          if (!m.ok) {
            break;
          }
          take (m);
          ++count;
          if (m.len == 0 && count >= it.min) {
            empty_repeat = empty_repeat || (count < it.max && !m.acts.empty ());
            break;
          }
        }
        if (count == it.max) {  // an implementation may try once more: count its steps
          bool const seen = empty_repeat;
          (void)match (it.args[0], p);
          empty_repeat = seen;
        }
        ok = count >= it.min;
        break;
      }
      }
      if (!ok) {
        return {};
      }
    }
    r.ok = true;
    r.len = p - pos;
    return r;
  }
};

// ---- the library
struct Lib {
  sv text;
  std::vector<Action> log;
  static inline Lib* current = nullptr;

  void record (int id, sv s) { log.push_back ({id, s.data () - text.data (), s.size ()}); }
  template <int Id> static void plain (sv s) { current->record (Id, s); }

  rule::matched_result match (NodeP n, rule const& r) {
    if (n->terminal) {
      switch (n->t.kind) {
      case Term::chr: return uri::single_char (n->t.a) (r);
      case Term::range: return uri::char_range (n->t.a, n->t.b) (r);
      case Term::alpha: return uri::alpha (r);
      case Term::digit: return uri::digit (r);
      case Term::hexdig: return uri::hexdig (r);
      case Term::pred: return r.single_char ([n] (char c) { return n->t.set.find (c) != n->t.set.npos; });
      }
    }
    rule cur = r;
    for (auto const& it : n->items) {
      cur = step (cur, it);
    }
    return cur.matched ("node", r);
  }
  auto fn (NodeP n) {
    return [this, n] (rule const& r) { return match (n, r); };
  }
  rule step (rule const& cur, Item const& it) {
    auto const f = fn (it.args[0]);
    switch (it.op) {
    case Op::concat:
    case Op::optional: {
      bool const c = it.op == Op::concat;
      if (it.accept < 0) {
        return c ? cur.concat (f) : cur.optional (f);
      }
      int const id = it.accept;
      if (it.accept_form == 1) {
        std::function<void (sv)> const g = [this, id] (sv s) { record (id, s); };
        return c ? cur.concat (f, g) : cur.optional (f, g);
      }
      if (it.accept_form == 2 && id < 3) {
        auto const g = id == 0 ? &plain<0> : id == 1 ? &plain<1> : &plain<2>;
        return c ? cur.concat (f, g) : cur.optional (f, g);
      }
      auto const g = [this, id] (sv s) { record (id, s); };
      return c ? cur.concat (f, g) : cur.optional (f, g);
    }
    case Op::star: return it.default_limits ? cur.star (f) : it.max == std::numeric_limits<unsigned>::max () ? cur.star (f, it.min) : cur.star (f, it.min, it.max);
    case Op::alternative:
      switch (it.args.size ()) {
      case 1: return cur.alternative (f);
      case 2: return cur.alternative (f, fn (it.args[1]));
      case 3: return cur.alternative (f, fn (it.args[1]), fn (it.args[2]));
      default: return cur.alternative (f, fn (it.args[1]), fn (it.args[2]), fn (it.args[3]));
      }
    }
    return cur;
  }
};

// ---- generation
constexpr sv alphabet = "abAB1f.";

struct Grammar {
  std::vector<std::unique_ptr<Node>> nodes;
  int next_action = 0;
  NodeP terminal (vf::Rng& r) {
    auto n = std::make_unique<Node> ();
    n->terminal = true;
    auto& t = n->t;
    switch (r.below (10)) {
    case 0: t.kind = Term::alpha; break;
    case 1: t.kind = Term::digit; break;
    case 2: t.kind = Term::hexdig; break;
    case 3:
      t.kind = Term::range;
      switch (r.below (4)) {
      case 0: t.a = '0', t.b = static_cast<char> ('0' + r.below (10)); break;
      case 1: t.a = 'a', t.b = static_cast<char> ('a' + r.below (26)); break;
      case 2: t.a = 'A', t.b = static_cast<char> ('A' + r.below (26)); break;
      default: t.a = '!', t.b = '/';
      }
      break;
    case 4:
      t.kind = Term::pred;
      for (u64 k = r.below (4); k > 0; --k) {
        t.set += r.pick_char (alphabet);
      }
      break;
    default:
      t.kind = Term::chr;
      t.a = r.chance (1, 20) ? static_cast<char> (r.below (256)) : r.pick_char (alphabet);
    }
    nodes.push_back (std::move (n));
    return nodes.back ().get ();
  }
  NodeP node (vf::Rng& r, unsigned depth) {
    if (depth == 0 || r.chance (1, 3)) {
      return terminal (r);
    }
    auto n = std::make_unique<Node> ();
    auto* const self = n.get ();
    nodes.push_back (std::move (n));
    bool consumed = false;
    for (u64 k = r.chance (1, 15) ? 0 : 1 + r.below (4); k > 0; --k) {
      Item it;
      switch (r.below (8)) {
      case 0:
      case 1:
      case 2: it.op = Op::concat; break;
      case 3: it.op = Op::optional; break;
      case 4:
      case 5: it.op = Op::star; break;
      default: it.op = Op::alternative; break;
      }
      u64 const args = it.op == Op::alternative ? 1 + r.below (4) : 1;
      for (u64 a = 0; a < args; ++a) {
        // a rule may refer to itself once something has been consumed
        it.args.push_back (consumed && r.chance (1, 12) ? self : node (r, depth - 1));
      }
      if ((it.op == Op::concat || it.op == Op::optional) && r.chance (1, 2)) {
        it.accept = next_action++;
        it.accept_form = static_cast<int> (r.below (3));
      }
      if (it.op == Op::star) {
        switch (r.below (6)) {
        case 0: it.default_limits = true; break;
        case 1: it.min = static_cast<unsigned> (r.below (4)); break;
        case 2: it.min = it.max = static_cast<unsigned> (r.below (4)); break;
        default:
          it.min = static_cast<unsigned> (r.below (3));
          it.max = it.min + static_cast<unsigned> (r.below (4));
        }
      }
      consumed = consumed || (it.op == Op::concat && it.args[0]->terminal);
      self->items.push_back (std::move (it));
    }
    return self;
  }
};

std::string show (NodeP n, int depth = 0) {
  if (n->terminal) {
    switch (n->t.kind) {
    case Term::chr: return vf::esc (sv{&n->t.a, 1});
    case Term::range: return std::string{n->t.a} + ".." + n->t.b;
    case Term::alpha: return "ALPHA";
    case Term::digit: return "DIGIT";
    case Term::hexdig: return "HEXDIG";
    default: return "[" + n->t.set + "]";
    }
  }
  if (depth > 5) {
    return "...";
  }
  std::string r = "(";
  for (auto const& it : n->items) {
    r += r.size () > 1 ? " " : "";
    switch (it.op) {
    case Op::concat: r += show (it.args[0], depth + 1); break;
    case Op::optional: r += show (it.args[0], depth + 1) + "?"; break;
    case Op::star:
      r += show (it.args[0], depth + 1) + "{" + std::to_string (it.min) + "," + (it.max > 99 ? "" : std::to_string (it.max)) + "}";
      break;
    case Op::alternative:
      for (std::size_t i = 0; i < it.args.size (); ++i) {
        r += (i != 0 ? " / " : "<") + show (it.args[i], depth + 1);
      }
      r += ">";
    }
    if (it.accept >= 0) {
      r += "!" + std::to_string (it.accept);
    }
  }
  return r + ")";
}
std::string show (std::vector<Action> const& a) {
  std::string r = "[";
  for (auto const& x : a) {
    r += " " + std::to_string (x.id) + "@" + std::to_string (x.pos) + "+" + std::to_string (x.len);
  }
  return r + " ]";
}

bool evaluate (vf::Case& c, Grammar const& g, NodeP root, sv raw, u64 limit = 20000) {
  (void)g;
  vf::Block const block{raw};
  sv const text = block.view ();
  Model m{text, limit};
  auto const want = m.match (root, 0);
  if (m.steps > limit) {
    c.tally ("skipped-too-long");
    return false;
  }
  c.note (show (root).substr (0, 2000) + " on " + vf::esc (text));
  auto bad = [&] (char const* key, std::string const& what) {
    c.fail (key, std::string{key} + ": " + show (root).substr (0, 800) + " on " + vf::esc (text) + ": " + what);
  };
  Lib lib{text};
  Lib::current = &lib;
  rule const start{text};
  auto const got = lib.match (root, start);
  if (got.has_value () != want.ok) {
    bad ("match", want.ok ? "should match" : "should not match");
    return true;
  }
  if (got) {
    auto const head = std::get<0> (*got);
    if (head.size () != want.len || head.data () != text.data ()) {
      bad ("consumed", "consumes " + vf::esc (head) + ", should consume " + std::to_string (want.len) + " bytes");
    }
  }
  if (!lib.log.empty ()) {
    bad ("early-action", "an action ran before the whole input was matched");
    lib.log.clear ();
  }
  // as a complete match
  bool const whole = want.ok && want.len == text.size ();
  auto const r = start.concat (lib.fn (root));
  if (!lib.log.empty ()) {
    bad ("early-action", "an action ran during concat");
    lib.log.clear ();
  }
  if (r.tail ().has_value () != want.ok) {
    bad ("tail", "tail() presence is wrong");
  } else if (want.ok && (*r.tail () != text.substr (want.len) || r.tail ()->data () != text.data () + want.len)) {
    bad ("tail", "tail() is " + vf::esc (*r.tail ()));
  }
  if (r.done () != whole) {
    bad ("done", whole ? "done() should be true" : "done() should be false");
  }
  if (whole ? !m.empty_repeat && lib.log != want.acts : !lib.log.empty ()) {
    bad ("actions", "actions " + show (lib.log) + ", want " + (whole ? show (want.acts) : "none"));
  }
  lib.log.clear ();
  // matched by a rule that carries an action of its own, optionally
  {
    auto const r2 = start.optional (lib.fn (root), [&lib] (sv s) { lib.record (1000, s); });
    bool const w2 = want.ok ? whole : text.empty ();
    if (r2.done () != w2) {
      bad ("optional-done", "done() after optional is wrong");
    }
    auto acts = want.acts;
    acts.push_back ({1000, 0, want.len});
    if (!w2 || !want.ok ? !lib.log.empty () : !m.empty_repeat && lib.log != acts) {
      bad ("optional-actions", "actions " + show (lib.log));
    }
    lib.log.clear ();
  }
  // a rule value can be continued in several ways
  if (want.ok && want.len < text.size ()) {
    auto const any = [] (rule const& x) { return x.single_char ([] (char) { return true; }); };
    auto const b = r.star (any);
    auto const z = r.concat (any).concat ([] (rule const& x) { return x.single_char ([] (char) { return false; }); });
    if (z.done () || z.tail ()) {
      bad ("branch", "a branch that fails reports success");
    }
    if (!b.done ()) {
      bad ("branch", "a second branch of the same rule fails");
    }
    if (!m.empty_repeat && lib.log != want.acts) {
      bad ("branch-actions", "actions " + show (lib.log) + ", want " + show (want.acts));
    }
    lib.log.clear ();
    c.tally ("branches");
  }
  c.tally (!want.ok ? "no-match" : whole ? "whole-match" : "prefix-match");
  c.tally ("actions-run", whole ? want.acts.size () : 0);
  if (m.empty_repeat) {
    c.tally ("repeated-empty-match");
  }
  if (whole && !want.acts.empty ()) {
    c.distinct (vf::hash_str (text, vf::hash_str (show (root))));
  }
  c.sample ([&] { return show (root).substr (0, 160) + " on " + vf::esc (text) + (want.ok ? " consumes " + std::to_string (want.len) : std::string{" fails"}); });
  return true;
}

std::string sentence (vf::Rng& r) {
  std::string s;
  for (u64 n = r.below (8); n > 0; --n) {
    s += r.chance (1, 30) ? static_cast<char> (r.below (256)) : r.pick_char (alphabet);
  }
  return s;
}
// a text that the grammar is likely to match
void derive (vf::Rng& r, NodeP n, std::string& s, unsigned depth) {
  if (s.size () > 40) {
    return;
  }
  if (n->terminal) {
    for (unsigned tries = 0; tries < 40; ++tries) {
      char const c = tries < 20 ? r.pick_char (alphabet) : static_cast<char> (r.below (256));
      if (term_ok (n->t, c)) {
        s += c;
        return;
      }
    }
    return;
  }
  if (depth == 0) {
    return;
  }
  for (auto const& it : n->items) {
    switch (it.op) {
    case Op::concat: derive (r, it.args[0], s, depth - 1); break;
    case Op::optional:
      if (r.chance (1, 2)) {
        derive (r, it.args[0], s, depth - 1);
      }
      break;
    case Op::alternative: derive (r, r.pick (it.args), s, depth - 1); break;
    case Op::star:
      for (u64 k = it.min + r.below (std::min<u64> (it.max - it.min, 3) + 1); k > 0; --k) {
        derive (r, it.args[0], s, depth - 1);
      }
    }
  }
}

void grammars (vf::Case& c) {
  Grammar g;
  auto const root = g.node (c.rng, 1 + static_cast<unsigned> (c.rng.below (4)));
  for (int k = 0; k < 4; ++k) {
    std::string s;
    derive (c.rng, root, s, 8);
    if (k == 2) {
      gen::mutate (c.rng, s);
    } else if (k == 3) {
      s += sentence (c.rng);
    }
    evaluate (c, g, root, s);
  }
  evaluate (c, g, root, "");
  evaluate (c, g, root, sentence (c.rng));
}
// x{min,max} over a character, an optional character (matches empty) and a pair, all small texts
void stars (vf::Case& c) {
  u64 i = c.idx;
  unsigned const min = static_cast<unsigned> (i % 4);
  i /= 4;
  unsigned const span = static_cast<unsigned> (i % 5);
  i /= 5;
  u64 const body = i % 4;
  i /= 4;
  Grammar g;
  auto add = [&g] (Node n) {
    g.nodes.push_back (std::make_unique<Node> (std::move (n)));
    return g.nodes.back ().get ();
  };
  Node ch;
  ch.terminal = true;
  ch.t = {Term::chr, 'a'};
  NodeP const a = add (ch);
  NodeP x = a;
  if (body == 1) {
    Node n;
    n.items.push_back (Item{Op::optional, {a}, 0, 0, false, 0, 0});
    x = add (std::move (n));
  } else if (body == 2) {
    Node n;
    n.items.push_back (Item{Op::concat, {a}, 0, 0, false, 0, 0});
    n.items.push_back (Item{Op::concat, {a}, 0, 0, false, 1, 2});
    x = add (std::move (n));
  } else if (body == 3) {
    Node n;
    n.items.push_back (Item{Op::concat, {a}, 0, 0, false, 0, 1});
    x = add (std::move (n));
  }
  Node n;
  n.items.push_back (Item{Op::star, {x}, min, span == 4 ? std::numeric_limits<unsigned>::max () : min + span, false, -1, 0});
  auto const root = add (std::move (n));
  evaluate (c, g, root, gen::nth_string (i, "aAb"));
}
// every byte against every kind of character rule
void characters (vf::Case& c) {
  Grammar g;
  auto n = std::make_unique<Node> ();
  n->terminal = true;
  auto const kind = c.idx / 256;
  auto const a = static_cast<char> (c.idx % 256);
  if (kind < 3) {
    n->t.kind = kind == 0 ? Term::alpha : kind == 1 ? Term::digit : Term::hexdig;
    g.nodes.push_back (std::move (n));
    evaluate (c, g, g.nodes[0].get (), sv{&a, 1});
    return;
  }
  if (kind == 3) {
    n->t = {Term::chr, a};
  } else {
    static constexpr char lo[] = "09aAzZ!:[0af", hi[] = "99zZzZ/@`5Ff";
    auto const k = c.idx % 12;
    n->t = {Term::range, lo[k], hi[k]};
  }
  g.nodes.push_back (std::move (n));
  for (unsigned b = 0; b < 256; ++b) {
    char const ch = static_cast<char> (b);
    evaluate (c, g, g.nodes[0].get (), sv{&ch, 1});
  }
}
// deep recursion of alternatives and a long repetition
void longs (vf::Case& c) {
  Grammar g;
  auto n = std::make_unique<Node> ();
  n->terminal = true;
  n->t = {Term::alpha};
  g.nodes.push_back (std::move (n));
  auto r = std::make_unique<Node> ();
  r->items.push_back (Item{Op::concat, {g.nodes[0].get ()}, 0, 0, false, 0, 0});
  g.nodes.push_back (std::move (r));
  auto s = std::make_unique<Node> ();
  auto const lim = c.rng.below (3000);
  s->items.push_back (Item{Op::star, {g.nodes[1].get ()}, static_cast<unsigned> (c.rng.below (lim + 1)), c.rng.chance (1, 2) ? std::numeric_limits<unsigned>::max () : static_cast<unsigned> (lim), false, -1, 0});
  g.nodes.push_back (std::move (s));
  std::string t (c.rng.below (3000), 'q');
  evaluate (c, g, g.nodes[2].get (), t);
}
// minimum, maximum and number of repetitions around the sizes at which a counter might give out
void counts (vf::Case& c) {
  static constexpr unsigned near[] = {127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, 65537, 66000};
  constexpr auto unlimited = std::numeric_limits<unsigned>::max ();
  auto const size = near[c.idx % std::size (near)];
  auto any = [&] {
    switch (c.rng.below (4)) {
    case 0: return size;
    case 1: return size + static_cast<unsigned> (c.rng.below (3)) - 1;
    case 2: return static_cast<unsigned> (c.rng.below (3));
    default: return near[c.rng.below (std::size (near))];
    }
  };
  auto min = any (), max = c.rng.chance (1, 3) ? unlimited : any ();
  if (min > max) {
    std::swap (min, max);
  }
  Grammar g;
  auto n = std::make_unique<Node> ();
  n->terminal = true;
  n->t = {Term::chr, 'a'};
  g.nodes.push_back (std::move (n));
  NodeP body = g.nodes[0].get ();
  if (size < 5000 && c.rng.chance (1, 2)) {
    auto r = std::make_unique<Node> ();
    r->items.push_back (Item{Op::concat, {body}, 0, 0, false, 0, 0});
    g.nodes.push_back (std::move (r));
    body = g.nodes[1].get ();
  }
  auto s = std::make_unique<Node> ();
  s->items.push_back (Item{Op::star, {body}, min, max, false, -1, 0});
  auto const root = s.get ();
  g.nodes.push_back (std::move (s));
  std::string text (c.rng.chance (1, 2) ? size : any (), 'a');
  if (c.rng.chance (1, 4)) {
    text += "b";
  }
  if (evaluate (c, g, root, text, 300000)) {
    c.tally (size > 60000 ? "counts-above-60000" : "counts");
  }
}

}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  auto const st = 4 * 5 * 4 * gen::count_strings (3, 6);
  r.phases = {{"characters", 5 * 256, 5 * 256, characters},
              {"stars", st, 4 * 5 * 4 * gen::count_strings (3, 8), stars},
              {"grammars", 150000, 8000000, grammars},
              {"counts", 17 * 60, 17 * 3000, counts},
              {"long", 60, 600, longs}};
  return r.main (argc, argv);
}
