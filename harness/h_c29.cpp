// C29: a call has no effect but its result. Calls run in a process whose kernel refuses everything except memory
// management, between two looks at the process state a library could change, with live heap memory counted.
#include <cfenv>
#include <clocale>
#include <cstddef>
#include <exception>
#include <iomanip>
#include <iostream>
#include <locale>
#include <new>

#include <linux/filter.h>
#include <linux/seccomp.h>
#include <malloc.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include "ops.hpp"
#include "surroundings.hpp"

namespace mem {
long live = 0;
void* get (std::size_t n) {
  void* const p = std::malloc (n == 0 ? 1 : n);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  live += static_cast<long> (::malloc_usable_size (p));
  return p;
}
void put (void* p) noexcept {
  if (p != nullptr) {
    live -= static_cast<long> (::malloc_usable_size (p));
    std::free (p);
  }
}
}  // namespace mem
void* operator new (std::size_t n) { return mem::get (n); }
void* operator new[] (std::size_t n) { return mem::get (n); }
void operator delete (void* p) noexcept { mem::put (p); }
void operator delete[] (void* p) noexcept { mem::put (p); }
void operator delete (void* p, std::size_t) noexcept { mem::put (p); }
void operator delete[] (void* p, std::size_t) noexcept { mem::put (p); }

namespace {
using ops::Input;
using vf::Rng;
using vf::u64;

// What the child tells its parent: it may not write to anything else.
struct Report {
  enum Kind : int { running, fine, refused, state, retained, stream, unsealed, asked };
  volatile int kind;
  volatile int syscall_nr;
  volatile unsigned op, input;
  volatile u64 calls, stream_calls, repeats, passes, looks;
  char text[400];
};
Report* report;

void say (Report::Kind k, std::string const& what) {
  if (report->kind == Report::running) {
    std::snprintf (report->text, sizeof report->text, "%s", what.c_str ());
    report->kind = k;
  }
}

void on_sigsys (int, siginfo_t* si, void*) {
  report->syscall_nr = si->si_syscall;
  report->kind = Report::refused;
  ::syscall (SYS_exit_group, 0);
}

// From here on only memory management, waiting on a lock and leaving are possible.
bool seal () {
  struct sigaction sa {};
  sa.sa_sigaction = on_sigsys;
  sa.sa_flags = SA_SIGINFO;
  sigaction (SIGSYS, &sa, nullptr);
  static constexpr unsigned allowed[] = {SYS_brk, SYS_munmap, SYS_mremap, SYS_madvise, SYS_mprotect, SYS_futex, SYS_exit_group, SYS_rt_sigreturn};
  std::vector<sock_filter> f;
  f.push_back (BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, nr)));
  for (auto const nr : allowed) {
    f.push_back (BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1));
    f.push_back (BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  }
  // mmap, but only of memory (MAP_ANONYMOUS)
  f.push_back (BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 3));
  f.push_back (BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, args) + 3 * sizeof (__u64)));
  f.push_back (BPF_JUMP (BPF_JMP | BPF_JSET | BPF_K, MAP_ANONYMOUS, 0, 1));
  f.push_back (BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW));
  f.push_back (BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_TRAP));
  sock_fprog const p{static_cast<unsigned short> (f.size ()), f.data ()};
  return ::prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && ::prctl (PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}

template <typename Stream> std::string stream_state (char const* name, Stream const& s) {
  std::ostringstream os;
  os << name << ' ' << s.rdstate () << ' ' << static_cast<long> (s.flags ()) << ' ' << s.precision () << ' ' << s.width () << ' '
     << static_cast<long> (s.fill ()) << ' ' << static_cast<void const*> (s.tie ()) << ' ' << static_cast<void const*> (s.rdbuf ()) << ' '
     << s.exceptions () << ' ' << s.getloc ().name () << '\n';
  return os.str ();
}

// Everything in the process, outside the kernel, that a library could quietly change.
std::string process_state () {
  std::ostringstream os;
  os << "C locale " << std::setlocale (LC_ALL, nullptr) << '\n' << "C++ locale " << std::locale{}.name () << '\n';
  u64 env = 0;
  for (char** p = environ; *p != nullptr; ++p) {
    env = vf::mix (env ^ vf::hash_str (*p));
  }
  os << "environment " << env << '\n';
  os << stream_state ("cin", std::cin) << stream_state ("cout", std::cout) << stream_state ("cerr", std::cerr)
     << stream_state ("clog", std::clog) << stream_state ("wcout", std::wcout) << stream_state ("wcerr", std::wcerr);
  os << "stdout buffer " << ::__fpending (stdout) << '\n' << "stderr buffer " << ::__fpending (stderr) << '\n';
  os << "terminate handler " << reinterpret_cast<void*> (std::get_terminate ()) << '\n';
  os << "new handler " << reinterpret_cast<void*> (std::get_new_handler ()) << '\n';
  os << "rounding " << std::fegetround () << '\n' << "exceptions in flight " << std::uncaught_exceptions () << '\n';
  return os.str ();
}
std::string first_difference (std::string const& a, std::string const& b) {
  std::istringstream x{a}, y{b};
  for (std::string l, m; std::getline (x, l) && std::getline (y, m);) {
    if (l != m) {
      return l + " became " + m;
    }
  }
  return "?";
}

// What the process has set up for itself before the calls: whatever it is, it stays.
struct Settings {
  std::locale locale;
  void check () const {
    if (std::locale{} != locale) {
      say (Report::state, "the global C++ locale was replaced");
    }
  }
};
[[noreturn]] void on_terminate () { ::syscall (SYS_exit_group, 4); std::abort (); }
void on_new () { throw std::bad_alloc{}; }
Settings dress (Rng& r) {
  struct Punct : std::numpunct<char> {
    char do_thousands_sep () const override { return '\''; }
    std::string do_grouping () const override { return "\1"; }
  };
  if (r.chance (1, 2)) {
    std::locale::global (std::locale{std::locale::classic (), new Punct});
  }
  if (r.chance (1, 2)) {
    std::setlocale (LC_ALL, "C.UTF-8");
  }
  if (r.chance (1, 3)) {
    static constexpr int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    std::fesetround (r.pick (modes));
  }
  if (r.chance (1, 3)) {
    std::set_terminate (on_terminate);
  }
  if (r.chance (1, 3)) {
    std::set_new_handler (on_new);
  }
  if (r.chance (1, 3)) {
    for (std::ostream* s : {&std::cout, &std::cerr, &std::clog}) {
      s->setf (std::ios_base::hex | std::ios_base::showbase);
      s->width (static_cast<int> (r.below (9)));
      s->fill ('*');
      s->precision (3);
    }
    std::cin.tie (nullptr);
    std::cin.unsetf (std::ios_base::skipws);
    std::cerr.setstate (std::ios_base::eofbit);
  }
  return {std::locale{}};
}

void run_op (unsigned op, Input const& in) {
  try {
    around::Watch const watch;
    (void) ops::list ()[op].fn (in);
  } catch (std::exception const&) {  // whether it may is for other properties
  }
}

// A stream of the caller's, set up in its own way: the text goes in, everything else about it stays.
void streams (Input const& in, Rng& r) {
  struct Facet : std::numpunct<char> {
    char do_thousands_sep () const override { return '\''; }
    std::string do_grouping () const override { return "\1"; }
  };
  auto one = [&] (char const* what, std::string const& want, auto put) {
    std::ostringstream os;
    static constexpr std::ios_base::fmtflags odd[] = {std::ios_base::hex, std::ios_base::oct, std::ios_base::showbase, std::ios_base::uppercase,
                                                      std::ios_base::boolalpha, std::ios_base::left, std::ios_base::internal,
                                                      std::ios_base::showpos, std::ios_base::unitbuf, std::ios_base::scientific};
    for (auto const f : odd) {
      if (r.chance (1, 3)) {
        os.setf (f);
      }
    }
    os.fill (r.pick_char ("* 0"));
    os.precision (static_cast<int> (r.below (9)));
    if (r.chance (1, 3)) {
      os.imbue (std::locale{os.getloc (), new Facet});
    }
    int const slot = 0;
    os.iword (slot) = 77;
    bool const broken = r.chance (1, 8);
    os << "before ";
    if (broken) {
      os.setstate (r.chance (1, 2) ? std::ios_base::failbit : std::ios_base::badbit);
    } else if (r.chance (1, 4)) {
      os.exceptions (std::ios_base::badbit);
    }
    if (broken) {  // further insertions add failbit: that is the stream's own doing
      os.setstate (std::ios_base::failbit);
    }
    auto const state = stream_state (what, os);
    auto* const back = put (os);
    ++report->stream_calls;
    auto const after = stream_state (what, os);
    if (back != static_cast<std::ostream*> (&os)) {
      say (Report::stream, std::string{what} + " returns another stream");
    } else if (state != after) {
      say (Report::stream, "a caller's stream is left changed: " + first_difference (state, after));
    } else if (os.iword (slot) != 77) {
      say (Report::stream, std::string{what} + " changes the stream's private words");
    } else if (os.str () != "before " + (broken ? std::string{} : want)) {
      say (Report::stream, std::string{what} + " on a stream with its own formatting writes " + vf::esc (os.str (), 150) + " for " + vf::esc (want, 150));
    }
  };
  for (auto const* p : {&in.parts.p, &in.parts2.p}) {
    auto const text = uri::compose (*p);
    one ("compose", text, [p] (std::ostream& os) { return &uri::compose (os, *p); });
    one ("<< parts", text, [p] (std::ostream& os) { return &(os << *p); });
    one ("<< path", static_cast<std::string> (p->path), [p] (std::ostream& os) { return &(os << p->path); });
    if (p->authority) {
      uri::parts only;
      only.authority = p->authority;
      one ("<< authority", uri::compose (only).substr (2), [p] (std::ostream& os) { return &(os << *p->authority); });
    }
  }
}

template <typename F> void in_child (vf::Case& c, F f) {
  std::memset (static_cast<void*> (report), 0, sizeof *report);
  pid_t const pid = ::fork ();
  if (pid < 0) {
    std::perror ("fork");
    std::exit (2);
  }
  if (pid == 0) {
    ::alarm (300);
    f ();
    if (report->kind == Report::running) {
      report->kind = Report::fine;
    }
    ::syscall (SYS_exit_group, 0);
  }
  int status = 0;
  ::waitpid (pid, &status, 0);
  c.tally ("processes");
  c.tally ("calls", report->calls);
  c.tally ("stream-calls", report->stream_calls);
  c.tally ("repeated-calls", report->repeats);
  c.tally ("passes", report->passes);
  c.tally ("state-comparisons", report->looks);
}

std::string where (std::vector<Input> const& in) {
  auto const n = ops::list ().size ();
  return (report->op < n ? std::string{ops::list ()[report->op].name} : std::string{"stream output"}) +
         (report->input < in.size () ? " on " + in[report->input].show () : std::string{});
}

void judge (vf::Case& c, std::vector<Input> const& in) {
  switch (report->kind) {
  case Report::fine: break;
  case Report::refused:
    c.fail ("system-call", "asks the kernel for something else than memory (system call " + std::to_string (report->syscall_nr) + "): " + where (in));
    break;
  case Report::asked: c.fail ("system-call", "asks the system for something else than memory (" + std::string{report->text} + "): " + where (in)); break;
  case Report::state: c.fail ("process-state", "changes the process: " + std::string{report->text} + ": " + where (in)); break;
  case Report::retained: c.fail ("memory-retained", std::string{report->text} + ": " + where (in)); break;
  case Report::stream: c.fail ("stream-state", std::string{report->text} + ": " + where (in)); break;
  case Report::unsealed:
    std::fprintf (stderr, "no system call filter available\n");
    std::exit (2);
  default: c.tally ("process-ended");  // a crash is a matter for other properties
  }
}

std::vector<Input> make (Rng& r, std::size_t n) {
  std::vector<Input> in;
  for (std::size_t i = 0; i < n; ++i) {
    in.push_back (ops::input (r, false));
  }
  return in;
}

// The first and later calls of a process, sealed off from the kernel.
void sealed (vf::Case& c) {
  auto const in = make (c.rng, 6);
  auto r = c.rng;
  std::vector<std::pair<unsigned, unsigned>> plan;
  auto const n_ops = static_cast<unsigned> (ops::list ().size ());
  for (unsigned i = 0; i < 3 * n_ops; ++i) {
    plan.emplace_back (i < n_ops ? i : static_cast<unsigned> (c.rng.below (n_ops)), static_cast<unsigned> (c.rng.below (in.size ())));
  }
  for (std::size_t i = plan.size () - 1; i > 0; --i) {
    std::swap (plan[i], plan[c.rng.below (i + 1)]);
  }
  c.note ("sealed calls");
  in_child (c, [&] {
    std::srand (4711);
    int const expected = std::rand ();
    std::srand (4711);
    auto const settings = dress (r);
    auto const before = process_state ();
    if (!seal ()) {
      report->kind = Report::unsealed;
      return;
    }
    unsigned done = 0;
    for (auto const& [op, input] : plan) {
      report->op = op;
      report->input = input;
      run_op (op, in[input]);
      ++report->calls;
      if (around::asked != 0) {
        say (Report::asked, around::last_clock);
        return;
      }
      if (++done % 8 == 0 || done == plan.size ()) {
        ++report->looks;
        settings.check ();
        if (auto const after = process_state (); after != before) {
          say (Report::state, "during the last eight calls, " + first_difference (before, after));
          return;
        }
      }
    }
    report->op = n_ops;
    for (unsigned i = 0; i < in.size () && report->kind == Report::running; ++i) {
      report->input = i;
      streams (in[i], r);
    }
    settings.check ();
    if (std::rand () != expected) {
      say (Report::state, "the sequence of rand() moved on");
    }
    if (auto const after = process_state (); after != before) {
      say (Report::state, first_difference (before, after));
    }
  });
  judge (c, in);
  for (auto const& [op, input] : plan) {
    c.distinct (vf::mix (op) ^ vf::hash_str (in[input].show ()));
  }
  c.sample ([&] { return in[0].show (); });
}

// Memory still allocated after a call's result is gone: none once the process is warm.
void retained (vf::Case& c) {
  auto const seed = c.rng.next ();
  auto const n_ops = static_cast<unsigned> (ops::list ().size ());
  constexpr unsigned n_passes = 9, warm = 3, per_pass = 24;
  c.note ("memory after calls, seed " + std::to_string (seed));
  in_child (c, [&] {
    Rng r{seed};
    std::vector<std::array<long, n_passes>> grown (n_ops);
    for (unsigned pass = 0; pass < n_passes; ++pass) {
      for (unsigned i = 0; i < per_pass; ++i) {
        auto const in = ops::input (r, false);
        (void) in.kept ();
        for (unsigned op = 0; op < n_ops; ++op) {
          report->op = op;
          report->input = ~0U;
          auto const before = mem::live;
          run_op (op, in);
          ++report->calls;
          grown[op][pass] += mem::live - before;
          if (i % 4 == 0) {  // the very same call again and again
            bool each = true;
            long last = 0;
            for (unsigned k = 0; k < 4; ++k) {
              auto const b = mem::live;
              run_op (op, in);
              ++report->repeats;
              last = mem::live - b;
              each = each && (last > 0 || k == 0);
            }
            if (each) {
              say (Report::retained, "every repetition of one call leaves memory allocated (" + std::to_string (last) + " bytes): " +
                                         ops::list ()[op].name + " on " + in.show ());
              return;
            }
          }
        }
      }
      ++report->passes;
    }
    for (unsigned op = 0; op < n_ops; ++op) {
      long total = 0;
      bool each = true;
      for (unsigned pass = warm; pass < n_passes; ++pass) {
        total += grown[op][pass];
        each = each && grown[op][pass] > 0;
      }
      if (each) {
        report->op = op;
        say (Report::retained, "new arguments keep adding memory that is never given back (" + std::to_string (total) + " bytes in " +
                                   std::to_string ((n_passes - warm) * per_pass) + " calls)");
        return;
      }
    }
  });
  judge (c, {});
  c.distinct (seed);
}
}  // namespace

void check_text (vf::Case&, std::string_view) {}

int main (int argc, char** argv) {
  auto* const m = ::mmap (nullptr, sizeof (Report), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) {
    std::perror ("mmap");
    return 2;
  }
  report = static_cast<Report*> (m);
  vf::Runner r;
  r.phases = {{"sealed", 4000, 120000, sealed}, {"retained", 80, 1600, retained}};
  return r.main (argc, argv);
}
