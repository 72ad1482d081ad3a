// C13: concurrent calls, including the first ones in a process, against the same calls made alone.
#include <atomic>
#include <thread>

#include <sys/wait.h>

#include "ops.hpp"

namespace {
using vf::u64;

struct Barrier {
  explicit Barrier (unsigned n) : left{n} {}
  void arrive () {
    left.fetch_sub (1, std::memory_order_acq_rel);
    while (left.load (std::memory_order_acquire) > 0) {
    }
  }
  std::atomic<int> left;
};

constexpr unsigned n_threads = 8;

// The calls one thread makes, and what they gave.
struct Call {
  std::size_t op;
  std::size_t input;
};
using Inputs = std::vector<ops::Input>;

u64 digest (Call const& k, Inputs const& in) { return vf::hash_str (ops::list ()[k.op].fn (in[k.input])); }

std::vector<std::vector<Call>> plan (vf::Rng& r, std::size_t inputs, std::size_t length) {
  auto const n_ops = ops::list ().size ();
  std::vector<std::vector<Call>> p (n_threads);
  auto const style = r.below (3);
  std::vector<Call> shared;
  for (std::size_t i = 0; i < length; ++i) {
    shared.push_back ({r.below (n_ops), r.below (inputs)});
  }
  for (auto& t : p) {
    if (style == 0) {
      t = shared;  // everyone does the same thing at the same time
    } else if (style == 1) {
      t = shared;  // the same calls, at different times
      std::rotate (t.begin (), t.begin () + static_cast<std::ptrdiff_t> (r.below (length)), t.end ());
    } else {
      for (std::size_t i = 0; i < length; ++i) {
        t.push_back ({r.below (n_ops), r.below (inputs)});
      }
    }
  }
  return p;
}

std::vector<std::vector<u64>> together (std::vector<std::vector<Call>> const& p, Inputs const& in, u64 seed) {
  std::vector<std::vector<u64>> got (p.size ());
  Barrier b{static_cast<unsigned> (p.size ())};
  std::vector<std::thread> ts;
  // the watchdog's timer signal belongs to the main thread
  sigset_t prof, before;
  sigemptyset (&prof);
  sigaddset (&prof, SIGPROF);
  pthread_sigmask (SIG_BLOCK, &prof, &before);
  for (std::size_t t = 0; t < p.size (); ++t) {
    got[t].resize (p[t].size ());
    ts.emplace_back ([&, t] {
      vf::Rng r{vf::mix (seed + t)};
      b.arrive ();
      for (std::size_t i = 0; i < p[t].size (); ++i) {
        if (r.chance (1, 8)) {
          std::this_thread::yield ();
        }
        got[t][i] = digest (p[t][i], in);
      }
    });
  }
  pthread_sigmask (SIG_SETMASK, &before, nullptr);
  for (auto& t : ts) {
    t.join ();
  }
  return got;
}

std::vector<std::vector<u64>> alone (std::vector<std::vector<Call>> const& p, Inputs const& in) {
  std::vector<std::vector<u64>> r;
  for (auto const& t : p) {
    r.emplace_back ();
    for (auto const& k : t) {
      r.back ().push_back (digest (k, in));
    }
  }
  return r;
}

Inputs make (vf::Rng& r, std::size_t n) {
  Inputs in;
  for (std::size_t i = 0; i < n; ++i) {
    in.push_back (ops::input (r, false));
  }
  return in;
}

bool send (int fd, std::vector<std::vector<u64>> const& v) {
  for (auto const& t : v) {
    if (::write (fd, t.data (), t.size () * sizeof (u64)) != static_cast<ssize_t> (t.size () * sizeof (u64))) {
      return false;
    }
  }
  return true;
}
// Runs f in a forked child; returns its digests. `status` is the child's wait status.
template <typename F> std::vector<u64> in_child (F f, int& status) {
  int fd[2];
  if (::pipe (fd) != 0) {
    std::perror ("pipe");
    std::exit (2);
  }
  pid_t const pid = ::fork ();
  if (pid < 0) {
    std::perror ("fork");
    std::exit (2);
  }
  if (pid == 0) {
    ::close (fd[0]);
    ::alarm (300);
    std::_Exit (send (fd[1], f ()) ? 0 : 3);
  }
  ::close (fd[1]);
  std::vector<u64> r;
  u64 buf[512];
  std::string raw;
  for (ssize_t n; (n = ::read (fd[0], buf, sizeof buf)) > 0;) {
    raw.append (reinterpret_cast<char const*> (buf), static_cast<std::size_t> (n));
  }
  ::close (fd[0]);
  ::waitpid (pid, &status, 0);
  r.resize (raw.size () / sizeof (u64));
  std::memcpy (r.data (), raw.data (), r.size () * sizeof (u64));
  return r;
}

void compare (vf::Case& c, std::vector<std::vector<Call>> const& p, Inputs const& in, std::vector<u64> const& want, std::vector<u64> const& got) {
  std::size_t i = 0;
  for (auto const& t : p) {
    for (auto const& k : t) {
      if (want[i] != got[i]) {
        c.fail ("result-differs", std::string{ops::list ()[k.op].name} + " gives another result when other threads run: " + in[k.input].show ());
        return;
      }
      ++i;
    }
  }
}

// In a process that has not called the library yet: all threads start together.
void first_calls (vf::Case& c) {
  auto const in = make (c.rng, 3);
  auto const p = plan (c.rng, in.size (), 6);
  auto const seed = c.rng.next ();
  std::string what;
  for (auto const& k : p[0]) {
    what += std::string{ops::list ()[k.op].name} + " ";
  }
  c.note ("first calls: " + what);
  int status = 0;
  auto const want = in_child ([&] { return alone (p, in); }, status);
  if (status != 0) {
    c.tally ("sequential-run-failed");  // not a matter of threads
    return;
  }
  auto const got = in_child ([&] { return together (p, in, seed); }, status);
  c.tally ("processes");
  c.tally ("calls", n_threads * p[0].size ());
  if (WIFSIGNALED (status) && WTERMSIG (status) == SIGALRM) {
    c.fail ("stuck", "concurrent first calls do not return: " + what);
  } else if (status != 0) {
    c.fail ("first-race", "a process whose first calls are concurrent ends with status " + std::to_string (status) + ": " + what);
  } else if (got.size () != want.size ()) {
    c.fail ("first-lost", "results missing: " + what);
  } else {
    compare (c, p, in, want, got);
  }
  for (auto const& t : p) {
    c.distinct (vf::mix (t[0].op) ^ vf::mix (t[1].op + 100) ^ c.idx);
  }
  c.sample ([&] { return what; });
}

// Many calls in one process.
void storm (vf::Case& c) {
  auto const in = make (c.rng, 8);
  auto const p = plan (c.rng, in.size (), 40);
  c.note ("storm");
  auto const got = together (p, in, c.rng.next ());
  auto const want = alone (p, in);
  c.tally ("storms");
  c.tally ("calls", n_threads * p[0].size ());
  auto flat = [] (std::vector<std::vector<u64>> const& v) {
    std::vector<u64> r;
    for (auto const& t : v) {
      r.insert (r.end (), t.begin (), t.end ());
    }
    return r;
  };
  compare (c, p, in, flat (want), flat (got));
  for (std::size_t t = 0; t + 1 < p.size (); ++t) {
    for (std::size_t i = 0; i < p[t].size (); ++i) {  // pairs of operations that could run together
      c.distinct (vf::mix (p[t][i].op * 64 + p[t + 1][i].op) ^ vf::mix (p[t][i].input));
    }
  }
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  vf::Runner r;
  // first_calls must come first: its processes fork from one that has called nothing
  r.phases = {{"first-calls", 800, 16000, first_calls}, {"storm", 320, 8000, storm}};
  return r.main (argc, argv);
}
