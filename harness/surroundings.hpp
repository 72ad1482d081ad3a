// Stand-ins for the functions through which a call could learn something that is not in its arguments: the clock, the
// environment, random numbers, the process. While `watching`, they count the question and answer as the `world` in force says.
#ifndef SURROUNDINGS_HPP
#define SURROUNDINGS_HPP

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <random>

#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>

namespace around {
inline bool watching = false;
inline unsigned world = 0;
inline unsigned long asked = 0;           // questions put while watching
inline char const* last_clock = nullptr;  // the last function that asked for the time or the process
inline std::uint64_t turn = 0;

inline std::uint64_t value () {
  ++asked;
  switch (world) {
  case 0: return 1000;
  case 1: return 0x7FFF'FFFFU;
  case 2: return 0;
  default: turn = turn * 6364136223846793005U + 1442695040888963407U; return turn >> 33U;
  }
}
inline char const* variable () {
  ++asked;
  static constexpr char const* answers[] = {nullptr, "1", "", "0"};
  return answers[world % 4];
}
struct Watch {
  Watch () { watching = true; }
  Watch (Watch const&) = delete;
  ~Watch () { watching = false; }
};
}  // namespace around

extern "C" {
int clock_gettime (clockid_t id, timespec* ts) noexcept {
  if (around::watching) {
    around::last_clock = "clock_gettime";
    ts->tv_sec = static_cast<time_t> (around::value ());
    ts->tv_nsec = static_cast<long> (around::value () % 1000000000U);
    return 0;
  }
  return static_cast<int> (::syscall (SYS_clock_gettime, id, ts));
}
int gettimeofday (timeval* tv, void* tz) noexcept {
  if (around::watching) {
    around::last_clock = "gettimeofday";
    tv->tv_sec = static_cast<time_t> (around::value ());
    tv->tv_usec = static_cast<suseconds_t> (around::value () % 1000000U);
    return 0;
  }
  return static_cast<int> (::syscall (SYS_gettimeofday, tv, tz));
}
time_t time (time_t* p) noexcept {
  timespec ts{};
  clock_gettime (CLOCK_REALTIME, &ts);
  if (p != nullptr) {
    *p = ts.tv_sec;
  }
  return ts.tv_sec;
}
clock_t clock () noexcept {
  timespec ts{};
  clock_gettime (CLOCK_PROCESS_CPUTIME_ID, &ts);
  return static_cast<clock_t> (ts.tv_sec) * CLOCKS_PER_SEC + static_cast<clock_t> (ts.tv_nsec / (1000000000 / CLOCKS_PER_SEC));
}
int sched_getcpu () noexcept {
  if (around::watching) {
    around::last_clock = "sched_getcpu";
    return static_cast<int> (around::value () % 8);
  }
  unsigned cpu = 0;
  ::syscall (SYS_getcpu, &cpu, nullptr, nullptr);
  return static_cast<int> (cpu);
}
#ifdef SURROUNDINGS_ANSWER_ALL
pid_t getpid () noexcept {
  return around::watching ? static_cast<pid_t> (around::value () % 30000 + 2) : static_cast<pid_t> (::syscall (SYS_getpid));
}
char* getenv (char const* name) noexcept {
  if (around::watching) {
    return const_cast<char*> (around::variable ());
  }
  auto const n = std::strlen (name);
  for (char** p = environ; p != nullptr && *p != nullptr; ++p) {
    if (std::strncmp (*p, name, n) == 0 && (*p)[n] == '=') {
      return *p + n + 1;
    }
  }
  return nullptr;
}
char* secure_getenv (char const* name) noexcept { return getenv (name); }
int rand () noexcept { return static_cast<int> (around::value () % (static_cast<unsigned> (RAND_MAX) + 1U)); }
long random () noexcept { return rand (); }
long lrand48 () noexcept { return rand (); }
double drand48 () noexcept { return rand () / (static_cast<double> (RAND_MAX) + 1); }
#endif
}

#ifdef SURROUNDINGS_ANSWER_ALL
unsigned std::random_device::_M_getval () { return static_cast<unsigned> (around::value ()); }
#endif

#endif
