// Reads lines "P hex" / "R hex hex" and answers with what oracle_uri.hpp says.
#include <cstdio>
#include <iostream>
#include <sstream>
#include "../harness/oracle_uri.hpp"
static std::string unhex (std::string const& h) {
  std::string r;
  for (std::size_t i = 0; i + 1 < h.size (); i += 2) r += static_cast<char> (std::stoi (h.substr (i, 2), nullptr, 16));
  return r;
}
static std::string hex (std::string_view s) {
  std::string r;
  char b[3];
  for (unsigned char c : s) { std::snprintf (b, 3, "%02x", c); r += b; }
  return r;
}
template <typename O> static std::string show (O const& o) { return o ? "=" + hex (*o) : std::string{"-"}; }
static std::string show (std::optional<orc::Parts> const& p) {
  if (!p) return "no";
  std::string r = show (p->scheme) + "," + (p->has_auth ? "A" : "-") + "," + show (p->userinfo) + "," + hex (p->host) + "," + show (p->port) + "," + hex (p->path) + "," + show (p->query) + "," + show (p->fragment);
  return r;
}
int main () {
  for (std::string line; std::getline (std::cin, line);) {
    std::istringstream is{line};
    std::string k, a, b;
    is >> k >> a >> b;
    auto const s = unhex (a.substr (1));
    if (k == "P") {
      std::cout << show (orc::parse (s, true)) << ' ' << show (orc::parse (s, false)) << '\n';
    } else {
      auto const t = unhex (b.substr (1));
      auto const x = orc::resolve (*orc::parse (s, true), *orc::parse (t, false), true);
      std::string r = *x.scheme + ":" + (x.authority ? "//" + *x.authority : "") + x.path + (x.query ? "?" + *x.query : "") + (x.fragment ? "#" + *x.fragment : "");
      std::cout << hex (r) << '\n';
    }
  }
}
