// Shared harness support.  A harness drives the real code of /repo over an enumerated universe of
// cases and compares it with an independent model.  Output protocol (one line each):
//   FAIL <property> <signature> | <failing input, expected, got>
//   STAT <name>=<n> ...      SAMPLE <case>
#ifndef H_HH
#define H_HH
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <sstream>
#include <iostream>
#include <cmath>
#include <algorithm>
#include <functional>
#include <fstream>
#include <sys/wait.h>

namespace H {
  static std::string prop = "P00", tier = "quick";
  static unsigned long seed = 1;
  static std::vector<double> extra;                 // values taken from verifier counterexamples
  static long cases = 0, nontrivial = 0, fails = 0, nsamples = 0;
  static std::map<std::string, int> seen;
  static char cur[4096] = "startup";
  static FILE* out = stdout;

  inline bool thorough() { return tier == "thorough"; }
  inline unsigned long rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
  inline unsigned long rnd(unsigned long n) { return rnd() % n; }

  inline void fail(const std::string& p, const std::string& sig, const std::string& detail) {
    fails++;
    std::string k = p + " " + sig;
    if (seen[k]++ < 3) { fprintf(out, "FAIL %s %s | %s\n", p.c_str(), sig.c_str(), detail.c_str()); fflush(out); }
  }
  inline void fail(const std::string& sig, const std::string& detail) { fail(prop, sig, detail); }
  inline void at(const std::string& s) { strncpy(cur, s.c_str(), sizeof cur - 1); }
  inline void sample(const std::string& s) { if (nsamples < 5) { nsamples++; fprintf(out, "SAMPLE %s\n", s.c_str()); } }
  inline void count(bool nontriv) { cases++; if (nontriv) nontrivial++; }

  inline void crashed(int s) {
    char b[5000];
    int n = snprintf(b, sizeof b, "FAIL %s %s | while running: %s\n", prop.c_str(),
                     s == SIGALRM ? "hang" : "crash", cur);
    fflush(out);
    if (write(fileno(out), b, n) < 0) {}
    _exit(3);
  }
  // everything europa prints goes to /dev/null; the protocol goes to the original stdout
  inline void init(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string a = argv[i];
      if (a.compare(0, 5, "prop=") == 0) prop = a.substr(5);
      else if (a.compare(0, 5, "tier=") == 0) tier = a.substr(5);
      else if (a.compare(0, 5, "seed=") == 0) { seed = strtoul(a.c_str() + 5, 0, 10) * 2654435761UL + 88172645463325252UL; }
      else if (a.compare(0, 6, "extra=") == 0) {
        std::stringstream ss(a.substr(6)); std::string t;
        while (std::getline(ss, t, ',')) if (!t.empty()) extra.push_back(atof(t.c_str()));
      }
    }
    int fd = dup(1);
    out = fdopen(fd, "w");
    if (!freopen("/dev/null", "w", stdout)) {}
    if (!freopen("/dev/null", "w", stderr)) {}
    std::ios::sync_with_stdio(true);
    std::cout.setstate(std::ios::failbit); std::cerr.setstate(std::ios::failbit);
    static char stk[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crashed; sa.sa_flags = SA_ONSTACK;
    int sg[] = { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTERM };
    for (int s : sg) sigaction(s, &sa, 0);
    alarm(thorough() ? 800 : 240);
  }
  inline int done() {
    fprintf(out, "STAT cases=%ld nontrivial=%ld fails=%ld\n", cases, nontrivial, fails);
    fflush(out);
    _exit(fails ? 1 : 0);
  }
  template <class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
  template <class C> std::string list(const C& c) { std::ostringstream o; o << "{"; bool f = true; for (auto& x : c) { if (!f) o << ","; f = false; o << x; } o << "}"; return o.str(); }
}
#define CHECK(p, sig, cond, detail) do { if (!(cond)) { std::ostringstream _o; _o << detail; H::fail(p, sig, _o.str()); } } while (0)
#endif
