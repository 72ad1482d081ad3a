// The C classification functions, with their argument range policed: anything but EOF and 0..255 is undefined.
#include <cstdio>
#include <cstdlib>

namespace {
int checked (char const* fn, int c) {
  if (c < -1 || c > 255) {
    std::fprintf (stderr, "Invalid argument %d passed to %s\n", c, fn);
    std::abort ();
  }
  return c;
}
bool in (int c, char lo, char hi) { return c >= lo && c <= hi; }
}  // namespace

extern "C" {
int isupper (int c) { return in (checked ("isupper", c), 'A', 'Z'); }
int islower (int c) { return in (checked ("islower", c), 'a', 'z'); }
int isalpha (int c) { return in (checked ("isalpha", c) | 0x20, 'a', 'z'); }
int isdigit (int c) { return in (checked ("isdigit", c), '0', '9'); }
int isalnum (int c) { return isalpha (checked ("isalnum", c)) || isdigit (c); }
int isxdigit (int c) { return isdigit (checked ("isxdigit", c)) || in (c | 0x20, 'a', 'f'); }
int isspace (int c) { return checked ("isspace", c) == ' ' || in (c, '\t', '\r'); }
int isblank (int c) { return checked ("isblank", c) == ' ' || c == '\t'; }
int iscntrl (int c) { return in (checked ("iscntrl", c), 0, 31) || c == 127; }
int isprint (int c) { return in (checked ("isprint", c), 32, 126); }
int isgraph (int c) { return in (checked ("isgraph", c), 33, 126); }
int ispunct (int c) { return isgraph (checked ("ispunct", c)) && !isalnum (c); }
int tolower (int c) { return isupper (checked ("tolower", c)) ? c + 32 : c; }
int toupper (int c) { return islower (checked ("toupper", c)) ? c - 32 : c; }
}
