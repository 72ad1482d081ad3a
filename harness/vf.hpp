// Execution framework shared by all harnesses: deterministic case generation,
// crash/hang attribution, violation records and measured coverage.
#ifndef VF_HPP
#define VF_HPP
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace vf {

using u64 = std::uint64_t;

inline u64 mix (u64 x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}

inline u64 hash_bytes (void const* p, std::size_t n, u64 h = 0xcbf29ce484222325ULL) {
  auto const* b = static_cast<unsigned char const*> (p);
  for (std::size_t i = 0; i < n; ++i) {
    h = (h ^ b[i]) * 0x100000001b3ULL;
  }
  return mix (h);
}
inline u64 hash_str (std::string_view s, u64 h = 0xcbf29ce484222325ULL) {
  u64 const n = s.size ();
  h = hash_bytes (&n, sizeof n, h);
  return hash_bytes (s.data (), s.size (), h);
}

class Rng {
public:
  explicit Rng (u64 seed) : s_{seed} {}
  u64 next () {
    s_ += 0x9E3779B97F4A7C15ULL;
    u64 x = s_;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
  }
  // uniform in [0,n)
  u64 below (u64 n) { return n <= 1 ? 0 : next () % n; }
  // uniform in [lo,hi]
  u64 range (u64 lo, u64 hi) { return lo + below (hi - lo + 1); }
  bool chance (unsigned num, unsigned den) { return below (den) < num; }
  template <typename C> auto const& pick (C const& c) { return c[below (std::size (c))]; }
  char pick_char (std::string_view s) { return s[below (s.size ())]; }

private:
  u64 s_;
};

// Printable form of arbitrary bytes.
inline std::string esc (std::string_view s, std::size_t max = 400) {
  static char const* hex = "0123456789abcdef";
  std::string r = "\"";
  std::size_t n = 0;
  for (unsigned char const c : s) {
    if (n++ >= max) {
      r += "\"...(" + std::to_string (s.size ()) + " bytes)";
      return r;
    }
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char> (c);
    } else if (c >= 0x20 && c < 0x7F) {
      r += static_cast<char> (c);
    } else {
      r += "\\x";
      r += hex[c >> 4];
      r += hex[c & 15];
    }
  }
  r += '"';
  return r;
}

inline std::string json_str (std::string_view s) {
  std::string r = "\"";
  char buf[8];
  for (unsigned char const c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char> (c);
    } else if (c >= 0x20 && c < 0x7F) {
      r += static_cast<char> (c);
    } else {
      std::snprintf (buf, sizeof buf, "\\u%04x", c);
      r += buf;
    }
  }
  r += '"';
  return r;
}

struct Status {  // shared with the driver through a mapped file
  u64 magic;
  u64 phase;
  u64 idx;
  u64 cases;
  u64 hang;
  u64 note_len;
  char note[4000];
};

struct Violation {
  std::string phase;
  u64 idx;
  std::string key;
  std::string msg;
};

struct Runner;

// How many bytes of other text lie before a Block's text: set anew for every case.
inline std::size_t lead = 0;

// A text in memory of its own that ends where the memory ends, so that nothing past it can be read unseen. It starts where
// the memory starts, or at any other alignment with misleading text before it.
class Block {
public:
  explicit Block (std::string_view s) : p_{new char[lead + s.size ()]}, lead_{lead}, n_{s.size ()} {
    for (std::size_t i = 0; i < lead_; ++i) {
      p_[i] = "%:/-."[(n_ + i) % 5];
    }
    if (n_ != 0) {
      std::memcpy (p_.get () + lead_, s.data (), n_);
    }
  }
  char* data () const { return p_.get () + lead_; }
  std::string_view view () const { return {data (), n_}; }

private:
  std::unique_ptr<char[]> p_;
  std::size_t lead_, n_;
};

struct Case {
  Runner& run;
  Rng rng;
  u64 idx;
  u64 count;  // number of cases in this phase in this tier
  bool thorough;

  void fail (std::string key, std::string msg);
  void tally (char const* name, u64 n = 1);
  void distinct (u64 h);  // one distinct non-trivial observation
  void sample (std::function<std::string ()> const& f);
  void note (std::string_view text);  // what is being executed now
};

struct Phase {
  char const* name;
  u64 quick;
  u64 thorough;
  void (*fn) (Case&);
};

inline constexpr u64 distinct_bits = u64{1} << 25;

struct Runner {
  std::vector<Phase> phases;
  u64 seed = 1;
  u64 shard = 0, nshards = 1;
  bool thorough = false;
  std::string out, distinct_file;
  Status* st = nullptr;
  Status local_status{};
  std::map<std::string, u64> tallies;
  std::vector<std::string> samples;
  std::map<std::string, int> sample_count;
  std::vector<Violation> violations;
  std::map<std::string, int> keys;
  std::vector<unsigned char> bitmap;
  u64 evaluations = 0;
  char const* current_phase = "";
  static inline Runner* instance = nullptr;
  static inline volatile u64 last_cases = 0;
  static inline volatile int stuck = 0;
  static inline int hang_limit = 20;

  static void on_prof (int) {
    auto* st = instance->st;
    if (st->cases == last_cases) {
      stuck = stuck + 1;
      if (stuck >= hang_limit) {
        st->hang = 1;
        _exit (86);
      }
    } else {
      last_cases = st->cases;
      stuck = 0;
    }
  }

  bool full () const { return violations.size () >= 5; }

  void run_case (std::size_t ph, u64 idx, u64 total) {
    st->phase = ph;
    st->idx = idx;
    st->note_len = 0;
    ++st->cases;
    ++evaluations;
    current_phase = phases[ph].name;
    u64 const s = mix (mix (seed ^ 0x5eed) ^ mix (hash_str (phases[ph].name)) ^ mix (idx * 0x9E37 + 0xABCD));
    Case c{*this, Rng{s}, idx, total, thorough};
    lead = (s >> 40) % 2 == 0 ? 0 : (s >> 48) % 16;
    try {
      phases[ph].fn (c);
    } catch (std::exception const& e) {
      c.fail ("unexpected-exception", std::string{"unexpected exception: "} + e.what ());
    } catch (...) {
      c.fail ("unexpected-exception", "unexpected exception");
    }
  }

  void write_out () {
    if (out.empty ()) {
      return;
    }
    std::FILE* f = std::fopen (out.c_str (), "w");
    if (f == nullptr) {
      std::perror ("open result");
      std::exit (2);
    }
    std::fprintf (f, "{\"evaluations\": %llu, \"tallies\": {", static_cast<unsigned long long> (evaluations));
    bool first = true;
    for (auto const& [k, v] : tallies) {
      std::fprintf (f, "%s%s: %llu", first ? "" : ", ", json_str (k).c_str (), static_cast<unsigned long long> (v));
      first = false;
    }
    std::fprintf (f, "}, \"samples\": [");
    first = true;
    for (auto const& s : samples) {
      std::fprintf (f, "%s%s", first ? "" : ", ", json_str (s).c_str ());
      first = false;
    }
    std::fprintf (f, "], \"violations\": [");
    first = true;
    for (auto const& v : violations) {
      std::fprintf (f, "%s{\"phase\": %s, \"idx\": %llu, \"key\": %s, \"msg\": %s}", first ? "" : ", ",
                    json_str (v.phase).c_str (), static_cast<unsigned long long> (v.idx), json_str (v.key).c_str (),
                    json_str (v.msg).c_str ());
      first = false;
    }
    std::fprintf (f, "], \"done\": true}\n");
    std::fclose (f);
    if (!distinct_file.empty ()) {
      f = std::fopen (distinct_file.c_str (), "wb");
      if (f != nullptr) {
        std::fwrite (bitmap.data (), 1, bitmap.size (), f);
        std::fclose (f);
      }
    }
  }

  int main (int argc, char** argv) {
    instance = this;
    st = &local_status;
    bitmap.resize (distinct_bits / 8);
    std::string replay_phase;
    u64 replay_idx = 0;
    std::string only;
    double scale = 1.0;
    for (int i = 1; i < argc; ++i) {
      std::string const a = argv[i];
      auto next = [&] () -> char const* {
        if (i + 1 >= argc) {
          std::fprintf (stderr, "missing argument for %s\n", a.c_str ());
          std::exit (2);
        }
        return argv[++i];
      };
      if (a == "--seed") {
        seed = std::strtoull (next (), nullptr, 0);
      } else if (a == "--shard") {
        shard = std::strtoull (next (), nullptr, 0);
      } else if (a == "--nshards") {
        nshards = std::strtoull (next (), nullptr, 0);
      } else if (a == "--thorough") {
        thorough = true;
      } else if (a == "--out") {
        out = next ();
      } else if (a == "--distinct") {
        distinct_file = next ();
      } else if (a == "--scale") {
        scale = std::atof (next ());
      } else if (a == "--hang") {
        hang_limit = std::atoi (next ());
      } else if (a == "--only") {
        only = next ();
      } else if (a == "--status") {
        int const fd = ::open (next (), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ::ftruncate (fd, sizeof (Status)) != 0) {
          std::perror ("status");
          return 2;
        }
        void* p = ::mmap (nullptr, sizeof (Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) {
          std::perror ("mmap");
          return 2;
        }
        ::close (fd);
        st = static_cast<Status*> (p);
        st->magic = 0x5646;
      } else if (a == "--replay") {
        replay_phase = next ();
        replay_idx = std::strtoull (next (), nullptr, 0);
      } else if (a == "--list") {
        for (auto const& p : phases) {
          std::printf ("%s\n", p.name);
        }
        return 0;
      } else {
        std::fprintf (stderr, "unknown option %s\n", a.c_str ());
        return 2;
      }
    }
    struct sigaction sa {};
    sa.sa_handler = on_prof;
    sa.sa_flags = SA_RESTART;
    sigaction (SIGPROF, &sa, nullptr);
    itimerval const tv{{1, 0}, {1, 0}};
    setitimer (ITIMER_PROF, &tv, nullptr);
    struct Disarm {  // the handler looks at this object, which does not outlive main ()
      ~Disarm () {
        std::signal (SIGPROF, SIG_IGN);
        itimerval const off{};
        setitimer (ITIMER_PROF, &off, nullptr);
      }
    } const disarm;

    bool ran = false;
    for (std::size_t ph = 0; ph < phases.size () && !full (); ++ph) {
      if (!only.empty () && std::string_view{phases[ph].name}.find (only) == std::string_view::npos) {
        continue;
      }
      u64 const base = thorough ? phases[ph].thorough : phases[ph].quick;
      u64 total = scale == 1.0 ? base : static_cast<u64> (static_cast<double> (base) * scale) + 1;
      if (scale > 1.0 && !thorough) {  // an enumeration has no cases beyond its thorough count
        total = std::min (total, std::max (base, phases[ph].thorough));
      }
      if (!replay_phase.empty ()) {
        if (replay_phase == phases[ph].name) {
          run_case (ph, replay_idx, total);
          ran = true;
        }
        continue;
      }
      for (u64 i = shard; i < total && !full (); i += nshards) {
        run_case (ph, i, total);
      }
      tallies[std::string{"cases:"} + phases[ph].name] += total > shard ? (total - shard + nshards - 1) / nshards : 0;
    }
    if (!replay_phase.empty () && !ran) {
      std::fprintf (stderr, "no such phase %s\n", replay_phase.c_str ());
      return 2;
    }
    write_out ();
    for (auto const& v : violations) {
      std::fprintf (stderr, "VIOLATED phase=%s idx=%llu key=%s: %s\n", v.phase.c_str (),
                    static_cast<unsigned long long> (v.idx), v.key.c_str (), v.msg.c_str ());
    }
    return violations.empty () ? 0 : 1;
  }
};

inline void Case::fail (std::string key, std::string msg) {
  // In a sanitizer run of another property's harness only crashes, reports and exceptions count.
  static bool const crash_only = std::getenv ("VF_CRASH_ONLY") != nullptr;
  if (crash_only && key != "unexpected-exception") {
    return;
  }
  if (run.keys[key]++ < 3) {
    run.violations.push_back ({run.current_phase, idx, std::move (key), std::move (msg)});
  }
}
inline void Case::tally (char const* name, u64 n) {
  run.tallies[name] += n;
}
inline void Case::distinct (u64 h) {
  h = mix (h) % distinct_bits;
  run.bitmap[h >> 3] |= static_cast<unsigned char> (1U << (h & 7));
}
inline void Case::sample (std::function<std::string ()> const& f) {
  // two per phase, not from its (usually trivial) beginning
  if (idx * 3 >= count && run.sample_count[run.current_phase] < 2) {
    ++run.sample_count[run.current_phase];
    run.samples.push_back (std::string{run.current_phase} + ": " + f ());
  }
}
inline void Case::note (std::string_view text) {
  auto* st = run.st;
  std::size_t const n = text.size () < sizeof st->note ? text.size () : sizeof st->note;
  std::memcpy (st->note, text.data (), n);
  st->note_len = n;
}

}  // namespace vf
#endif
