// C21: the uri-split program, run on real files and pipes, against the grammar oracle.
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

#include "gen_uri.hpp"
#include "oracle_uri.hpp"
#include "vf.hpp"

namespace {
using gen::sv;
using vf::u64;

std::string const tool = [] {
  auto const* t = std::getenv ("VF_TOOL");
  return std::string{t != nullptr ? t : ""};
}();

struct Ran {
  int status = 0;
  std::string out, err;
};

std::string slurp (int fd) {
  std::string r;
  char b[65536];
  ::lseek (fd, 0, SEEK_SET);
  for (ssize_t n; (n = ::read (fd, b, sizeof b)) > 0;) {
    r.append (b, static_cast<std::size_t> (n));
  }
  return r;
}

// What goes wrong around the program.
struct Faults {
  bool no_output_space = false;   // standard output is a device that is always full
  bool closed_output = false;
  bool closed_input = false;
  bool broken_pipe = false;       // nobody reads standard output; SIGPIPE is ignored
  long output_limit = -1;         // writing fails once the output has this size
  std::vector<std::string> env;   // for the preloaded read()
};

Ran run (std::vector<std::string> const& args, int in_fd, Faults const& f = {}) {
  char oname[] = "out-XXXXXX", ename[] = "err-XXXXXX";
  int const o = ::mkstemp (oname), e = ::mkstemp (ename);
  if (o < 0 || e < 0) {
    std::perror ("mkstemp");
    std::exit (2);
  }
  ::unlink (oname);
  ::unlink (ename);
  pid_t const pid = ::fork ();
  if (pid < 0) {
    std::perror ("fork");
    std::exit (2);
  }
  if (pid == 0) {
    ::dup2 (in_fd, 0);
    ::dup2 (o, 1);
    ::dup2 (e, 2);
    if (f.no_output_space) {
      int const full = ::open ("/dev/full", O_WRONLY);
      if (full < 0) {
        ::_exit (126);
      }
      ::dup2 (full, 1);
      ::close (full);
    }
    if (f.broken_pipe) {
      int p[2];
      if (::pipe (p) != 0) {
        ::_exit (126);
      }
      ::dup2 (p[1], 1);
      ::close (p[0]);
      ::close (p[1]);
      std::signal (SIGPIPE, SIG_IGN);
    }
    if (f.output_limit >= 0) {
      std::signal (SIGXFSZ, SIG_IGN);
      rlimit const l{static_cast<rlim_t> (f.output_limit), static_cast<rlim_t> (f.output_limit)};
      if (::setrlimit (RLIMIT_FSIZE, &l) != 0) {
        ::_exit (126);
      }
    }
    if (f.closed_output) {
      ::close (1);
    }
    if (f.closed_input) {
      ::close (0);
    }
    for (auto const& v : f.env) {
      ::putenv (const_cast<char*> (v.c_str ()));
    }
    ::alarm (60);
    std::vector<char*> av{const_cast<char*> (tool.c_str ())};
    for (auto const& a : args) {
      av.push_back (const_cast<char*> (a.c_str ()));
    }
    av.push_back (nullptr);
    ::execv (tool.c_str (), av.data ());
    ::_exit (126);
  }
  Ran r;
  ::waitpid (pid, &r.status, 0);
  r.out = slurp (o);
  r.err = slurp (e);
  ::close (o);
  ::close (e);
  if (WIFEXITED (r.status) && WEXITSTATUS (r.status) == 126) {
    std::fprintf (stderr, "cannot run %s\n", tool.c_str ());
    std::exit (2);
  }
  return r;
}

std::string value (std::optional<sv> const& s) { return s ? "\"" + std::string{*s} + "\"" : "None"; }

// What the program must print for a line that is a URI.
std::string block (orc::Parts const& p) {
  std::optional<sv> user, host, port;
  if (p.has_auth) {
    user = p.userinfo;
    host = p.host;
    port = p.port;
  }
  return " scheme: " + value (p.scheme) + "\n userinfo: " + value (user) + "\n host: " + value (host) + "\n port: " + value (port) + "\n path: \"" +
         std::string{p.path} + "\"\n query: " + value (p.query) + "\n fragment: " + value (p.fragment) + "\n";
}

struct Source {
  enum class Kind { file, missing, directory, empty_name } kind = Kind::file;
  std::string name, text;
};

// Feeds one source to the expectation; false when the program must stop.
bool expect_source (Source const& s, std::string& out, std::string& optional_tail) {
  if (s.kind != Source::Kind::file) {
    return false;
  }
  std::size_t at = 0;
  while (at < s.text.size ()) {
    auto const nl = s.text.find ('\n', at);
    auto const line = s.text.substr (at, nl == std::string::npos ? std::string::npos : nl - at);
    at = nl == std::string::npos ? s.text.size () : nl + 1;
    auto const p = orc::parse (line, true);
    if (!p) {
      optional_tail = "URI: " + line + "\n";
      return false;
    }
    out += "URI: " + line + "\n" + block (*p);
  }
  return true;
}

std::string show (std::vector<Source> const& ss) {
  std::string r;
  for (auto const& s : ss) {
    r += s.kind == Source::Kind::file ? vf::esc (s.text, 300) : s.kind == Source::Kind::directory ? "(a directory)" : "(no such file)";
    r += ' ';
  }
  return r;
}

std::string text (vf::Rng& r, u64 lines, unsigned bad) {
  std::string s;
  for (; lines > 0; --lines) {
    if (r.chance (bad, 100)) {
      static constexpr sv before[] = {"\xEF\xBB\xBF", " ", "\t", "#", "<", "\"", "\\", "//"};
      static constexpr sv after[] = {"", " ", "\t", "\r", ">", "\"", "\\"};
      switch (r.below (7)) {
      case 0: break;  // an empty line
      case 6:  // what a lenient reader might strip
        s += r.pick (before);
        s += gen::uri (r);
        s += r.pick (after);
        break;
      case 1: s += gen::relative (r); break;
      case 2: s += gen::uri (r) + (r.chance (1, 2) ? "\r" : " "); break;
      case 3: s += gen::uri (r) + std::string (1, '\0'); break;
      case 4: {
        auto t = gen::bytes (r, r.below (12));
        std::erase (t, '\n');
        s += t;
        break;
      }
      default: {
        auto t = gen::uri (r);
        gen::mutate (r, t);
        std::erase (t, '\n');
        s += t;
      }
      }
    } else {
      s += gen::uri (r);
    }
    if (lines > 1 || r.chance (1, 2)) {
      s += '\n';
    }
  }
  return s;
}

void write_file (std::string const& name, sv data) {
  std::FILE* const f = std::fopen (name.c_str (), "wb");
  if (f == nullptr || std::fwrite (data.data (), 1, data.size (), f) != data.size () || std::fclose (f) != 0) {
    std::perror (name.c_str ());
    std::exit (2);
  }
}

void judge (vf::Case& c, std::vector<Source> const& ss, Ran const& r, bool from_stdin) {
  std::string want, tail;
  bool ok = true;
  for (auto const& s : ss) {
    if (!expect_source (s, want, tail)) {
      ok = false;
      break;
    }
  }
  auto const desc = (from_stdin ? "standard input " : "files ") + show (ss);
  if (WIFSIGNALED (r.status) || (!WIFEXITED (r.status))) {
    c.fail ("died", "the program dies of signal " + std::to_string (WTERMSIG (r.status)) + " on " + desc + " " + vf::esc (r.err, 500));
    return;
  }
  int const code = WEXITSTATUS (r.status);
  if ((code == 0) != ok) {
    c.fail (ok ? "status-failure" : "status-success", "exit status " + std::to_string (code) + " on " + desc);
  }
  if (r.out != want && (ok || r.out != want + tail)) {
    std::size_t i = 0;
    while (i < r.out.size () && i < want.size () && r.out[i] == want[i]) {
      ++i;
    }
    i = i < 60 ? 0 : i - 60;
    c.fail ("output", "on " + desc + " the program prints ..." + vf::esc (sv{r.out}.substr (i), 300) + ", want ..." + vf::esc (sv{want}.substr (std::min (i, want.size ())), 300));
  }
  c.tally (ok ? "success" : "failure");
  c.tally ("lines", static_cast<u64> (std::count (want.begin (), want.end (), '\n')) / 8);
  c.tally ("bytes", r.out.size ());
  c.distinct (vf::hash_str (r.out));
  c.sample ([&] { return desc; });
}

std::string dir (vf::Case& c) {
  auto const d = "c21-" + std::to_string (::getpid ()) + "-" + std::to_string (c.idx);
  if (::mkdir (d.c_str (), 0755) != 0) {
    std::perror ("mkdir");
    std::exit (2);
  }
  return d;
}
void clean (std::string const& d, std::vector<std::string> const& names) {
  for (auto const& n : names) {
    if (::unlink (n.c_str ()) != 0) {
      ::rmdir (n.c_str ());
    }
  }
  ::rmdir (d.c_str ());
}

void files (vf::Case& c) {
  auto const d = dir (c);
  std::vector<Source> ss;
  std::vector<std::string> args;
  u64 const n = 1 + c.rng.below (4);
  static constexpr sv names[] = {"a.txt", "with space", "-", "--help", "\xC3\xA9", "x\"y", "#f"};
  for (u64 i = 0; i < n; ++i) {
    Source s;
    s.name = d + "/" + std::to_string (i) + std::string{c.rng.pick (names)};
    switch (c.rng.below (20)) {
    case 0:
      s.kind = Source::Kind::missing;
      c.tally ("missing-file");
      break;
    case 1:
      s.kind = Source::Kind::directory;
      ::mkdir (s.name.c_str (), 0755);
      c.tally ("directory");
      break;
    default:
      s.text = text (c.rng, c.rng.below (12), c.rng.chance (1, 3) ? 8 : 0);
      write_file (s.name, s.text);
      c.tally ("file");
      break;
    }
    args.push_back (s.name);
    ss.push_back (std::move (s));
  }
  c.note (show (ss));
  int const null = ::open ("/dev/null", O_RDONLY);
  auto const r = run (args, null);
  ::close (null);
  judge (c, ss, r, false);
  clean (d, args);
}

void standard_input (vf::Case& c) {
  std::vector<Source> ss (1);
  ss[0].text = text (c.rng, c.rng.below (20), c.rng.chance (1, 3) ? 6 : 0);
  c.note (show (ss));
  if (c.rng.chance (1, 2)) {
    char name[] = "in-XXXXXX";
    int const fd = ::mkstemp (name);
    ::unlink (name);
    if (::write (fd, ss[0].text.data (), ss[0].text.size ()) != static_cast<ssize_t> (ss[0].text.size ())) {
      std::exit (2);
    }
    ::lseek (fd, 0, SEEK_SET);
    judge (c, ss, run ({}, fd), true);
    ::close (fd);
    c.tally ("stdin-file");
  } else {
    // a pipe fed in small pieces with pauses: lines arrive split
    int p[2];
    if (::pipe (p) != 0) {
      std::exit (2);
    }
    pid_t const pid = ::fork ();
    if (pid == 0) {
      ::close (p[0]);
      std::signal (SIGPIPE, SIG_DFL);
      vf::Rng r{c.idx};
      for (std::size_t at = 0; at < ss[0].text.size ();) {
        auto const n = std::min<std::size_t> (1 + r.below (64), ss[0].text.size () - at);
        if (::write (p[1], ss[0].text.data () + at, n) < 0) {
          break;
        }
        at += n;
        ::usleep (static_cast<useconds_t> (r.below (200)));
      }
      ::_exit (0);
    }
    ::close (p[1]);
    auto const r = run ({}, p[0]);
    ::close (p[0]);
    int st;
    ::waitpid (pid, &st, 0);
    judge (c, ss, r, true);
    c.tally ("stdin-pipe");
  }
}

// many lines: every component shape in a long stream
void bulk (vf::Case& c) {
  std::vector<Source> ss (1);
  ss[0].text = text (c.rng, 2000, 0);
  if (c.rng.chance (1, 3)) {
    ss[0].text += std::string (ss[0].text.empty () || ss[0].text.back () == '\n' ? "" : "\n") + "s:" + std::string (100000, 'a') + "\n";
  }
  if (c.idx % 32 == 1) {
    // more lines than narrow counters reach
    ss[0].text.clear ();
    for (auto n = 65530 + c.rng.below (20); n > 0; --n) {
      ss[0].text += "s:\n";
    }
    ss[0].text += text (c.rng, 20, 5);
    c.tally ("many-lines");
  }
  auto const d = dir (c);
  if (c.idx % 32 == 2) {
    // more files than narrow counters reach
    ss.assign (127 + c.rng.below (3) + (c.rng.chance (1, 2) ? 128 : 0), {});
    std::vector<std::string> names;
    for (std::size_t i = 0; i < ss.size (); ++i) {
      ss[i].text = "s:" + std::to_string (i) + "\n";
      ss[i].name = d + "/" + std::to_string (i);
      write_file (ss[i].name, ss[i].text);
      names.push_back (ss[i].name);
    }
    c.note ("many files");
    c.tally ("many-files");
    int const null = ::open ("/dev/null", O_RDONLY);
    judge (c, ss, run (names, null), false);
    ::close (null);
    clean (d, names);
    return;
  }
  ss[0].name = d + "/bulk";
  write_file (ss[0].name, ss[0].text);
  c.note ("bulk");
  int const null = ::open ("/dev/null", O_RDONLY);
  judge (c, ss, run ({ss[0].name}, null), false);
  ::close (null);
  clean (d, {ss[0].name});
}

// one line, each with its own verdict: mutations and short strings
void single (vf::Case& c) {
  std::vector<Source> ss (1);
  auto t = c.idx < gen::count_strings (6, 3) ? gen::nth_string (c.idx, "a:/?#@") : gen::uri (c.rng);
  if (c.idx >= gen::count_strings (6, 3) && c.rng.chance (2, 3)) {
    gen::mutate (c.rng, t);
  }
  ss[0].text = t + (c.rng.chance (1, 2) ? "\n" : "");
  c.note (t);
  char name[] = "in-XXXXXX";
  int const fd = ::mkstemp (name);
  ::unlink (name);
  if (::write (fd, ss[0].text.data (), ss[0].text.size ()) != static_cast<ssize_t> (ss[0].text.size ())) {
    std::exit (2);
  }
  ::lseek (fd, 0, SEEK_SET);
  judge (c, ss, run ({}, fd), true);
  ::close (fd);
}
// reading or writing goes wrong part way: the program must fail, and must not have reported anything that is not there
void faults (vf::Case& c) {
  auto const d = dir (c);
  std::vector<Source> ss;
  std::vector<std::string> args;
  bool const from_stdin = c.rng.chance (1, 2);
  for (u64 n = from_stdin ? 1 : 1 + c.rng.below (3); n > 0; --n) {
    Source s;
    s.name = d + "/" + std::to_string (n);
    s.text = text (c.rng, c.rng.chance (1, 8) ? 400 : c.rng.below (10), c.rng.chance (1, 6) ? 8 : 0);
    write_file (s.name, s.text);
    args.push_back (s.name);
    ss.push_back (std::move (s));
  }
  std::string want, tail;
  bool ok = true;
  std::size_t total = 0;
  for (auto const& s : ss) {
    total += s.text.size ();
    if (ok && !expect_source (s, want, tail)) {
      ok = false;
    }
  }
  Faults f;
  std::string what;
  bool must_fail = true;    // whatever the input
  bool must_match = false;  // the fault changes nothing
  auto const mark = d + "/mark";
  bool reading = false;
  int in = ::open (from_stdin ? args[0].c_str () : "/dev/null", O_RDONLY);
  auto const preload = [&] {
    auto const* so = std::getenv ("VF_SHIM");
    f.env = {"LD_PRELOAD=" + std::string{so != nullptr ? so : ""}, "VF_MARK=" + mark};
  };
  switch (c.idx % 8) {
  case 0:
    f.no_output_space = true;
    must_fail = !want.empty ();
    what = "standard output is full";
    break;
  case 1:
    f.closed_output = true;
    must_fail = !want.empty ();
    what = "standard output is closed";
    break;
  case 2:
    f.broken_pipe = true;
    must_fail = !want.empty ();
    what = "nobody reads the output";
    break;
  case 3: {
    f.output_limit = static_cast<long> (c.rng.below (want.size () + 1));
    must_fail = static_cast<std::size_t> (f.output_limit) < want.size ();
    what = "only " + std::to_string (f.output_limit) + " of " + std::to_string (want.size ()) + " output bytes can be written";
    break;
  }
  case 4:
    if (!from_stdin) {
      must_fail = false;
      must_match = true;  // standard input does not matter then
    }
    if (c.rng.chance (1, 2)) {
      f.closed_input = true;
      what = "standard input is closed";
    } else {
      ::close (in);
      in = ::open (d.c_str (), O_RDONLY | O_DIRECTORY);
      what = "standard input is a directory";
    }
    break;
  case 5:
    preload ();
    f.env.push_back ("VF_CHUNK=" + std::to_string (1 + c.rng.below (9)));
    if (c.rng.chance (2, 3)) {
      f.env.push_back ("VF_EINTR=" + std::to_string (2 + c.rng.below (5)));
    }
    must_fail = false;
    must_match = true;
    what = "read() delivers little at a time and is interrupted";
    break;
  default:
    preload ();
    reading = true;
    f.env.push_back ("VF_FAIL_AT=" + std::to_string (c.rng.chance (1, 4) ? total : c.rng.below (total + 1)));
    if (c.rng.chance (1, 2)) {
      f.env.push_back ("VF_CHUNK=" + std::to_string (1 + c.rng.below (64)));
    }
    what = f.env[2] + ": read() fails after that many bytes";
    break;
  }
  c.note (what + " " + show (ss));
  auto const r = run (from_stdin ? std::vector<std::string>{} : args, in, f);
  ::close (in);
  bool fired = false;
  if (reading) {
    fired = ::access (mark.c_str (), F_OK) == 0;
    if (!fired) {
      must_fail = false;  // the input ended earlier (a line that is not a URI), or was not read with read()
      must_match = true;
    }
  }
  auto const desc = what + (from_stdin ? ", standard input " : ", files ") + show (ss);
  if (must_match) {
    judge (c, ss, r, from_stdin);
  } else if (!WIFEXITED (r.status)) {
    c.fail ("died", "the program dies of signal " + std::to_string (WTERMSIG (r.status)) + ": " + desc + " " + vf::esc (r.err, 300));
  } else {
    if ((must_fail || !ok) && WEXITSTATUS (r.status) == 0) {
      c.fail ("fault-success", "exit status 0 although " + desc);
    }
    if (!r.out.empty () && !(want + tail).starts_with (r.out)) {
      c.fail ("fault-output", "although " + desc + " the program prints " + vf::esc (r.out, 300) + ", not a beginning of " + vf::esc (want + tail, 300));
    }
  }
  static constexpr sv names[] = {"fault:full", "fault:closed-output", "fault:broken-pipe", "fault:output-limit", "fault:input", "fault:short-reads"};
  c.tally (reading ? (fired ? "fault:read-error" : "fault:read-error-not-reached") : std::string{names[c.idx % 8]}.c_str ());
  c.distinct (vf::hash_str (desc));
  ::unlink (mark.c_str ());
  clean (d, [&] {
    std::vector<std::string> n;
    for (auto const& s : ss) {
      n.push_back (s.name);
    }
    return n;
  }());
}
}  // namespace

int main (int argc, char** argv) {
  vf::Runner r;
  r.phases = {{"single", 2000, 40000, single}, {"files", 2400, 60000, files}, {"stdin", 1200, 30000, standard_input}, {"bulk", 64, 2000, bulk},
              {"faults", 1600, 40000, faults}};
  return r.main (argc, argv);
}
