// Support for the scenario drivers: reads scenarios, runs each one in a child process of its own,
// writes one JSON trace per scenario.
//
// Scenario file: one scenario per line, "<id> <token> <token> ...".
// Trace file:    one line per scenario, {"id":n,"c":{...},"s":[{"op":...,...},...]}
#ifndef VF_H
#define VF_H
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace vf {

const int BAD = 1999999999; //!< Observation which is not representable (never a legal value)

//! Exact dyadic observation: v*scale must be an integer.
inline int q(double v, double scale = 1.0)
{
  double w = v * scale;
  if (!(std::fabs(w) < 1.0e9)) return BAD;
  double r = std::nearbyint(w);
  return r == w ? (int)r : BAD;
}

//! Observation up to a relative/absolute tolerance.
inline int qt(double v, double scale = 1.0, double tol = 1.0e-7)
{
  double w = v * scale;
  if (!(std::fabs(w) < 1.0e9)) return BAD;
  double r = std::nearbyint(w);
  return std::fabs(r - w) <= tol * (1.0 + std::fabs(r)) ? (int)r : BAD;
}

//! Minimal JSON object builder.
class J
{
  std::string s;
  void key(const char* k) { if (!s.empty()) s += ','; s += '"'; s += k; s += "\":"; }
public:
  J() {}
  explicit J(const std::string& op) { set("op", op); }
  J& set(const char* k, int v) { key(k); s += std::to_string(v); return *this; }
  J& set(const char* k, size_t v) { key(k); s += std::to_string(v > 1000000000 ? (size_t)BAD : v); return *this; }
  J& set(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J& set(const char* k, const char* v) { return this->set(k, std::string(v)); }
  J& set(const char* k, const std::string& v)
  {
    key(k); s += '"';
    for (char c : v)
      if (c == '"' || c == '\\') { s += '\\'; s += c; }
      else if ((unsigned char)c < 32 || (unsigned char)c > 126) s += '?';
      else s += c;
    s += '"';
    return *this;
  }
  template<class T> J& arr(const char* k, const T& v)
  {
    key(k); s += '['; bool first = true;
    for (const auto& x : v) { if (!first) s += ','; s += std::to_string((int)x); first = false; }
    s += ']'; return *this;
  }
  J& sarr(const char* k, const std::vector<std::string>& v)
  {
    key(k); s += '['; bool first = true;
    for (const auto& x : v) { if (!first) s += ','; s += '"'; s += x; s += '"'; first = false; }
    s += ']'; return *this;
  }
  J& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  std::string str() const { return "{" + s + "}"; }
};

template<class T> std::string list(const T& v)
{
  std::string s = "["; bool first = true;
  for (const auto& x : v) { if (!first) s += ','; s += x; first = false; }
  return s + "]";
}

template<class T> std::string ilist(const T& v)
{
  std::string s = "["; bool first = true;
  for (const auto& x : v) { if (!first) s += ','; s += std::to_string((int)x); first = false; }
  return s + "]";
}

//! Token reader of one scenario.
class In
{
  std::istringstream is;
public:
  explicit In(const std::string& l) : is(l) {}
  bool more() { is >> std::ws; return is.good() && is.peek() != EOF; }
  std::string tok() { std::string s; is >> s; return s; }
  int num() { int i = 0; if (!(is >> i)) { std::fprintf(stderr, "scenario: integer expected\n"); _exit(97); } return i; }
};

class Out
{
  int fd; bool first = true;
  void put(const std::string& s) { size_t n = 0; while (n < s.size()) { ssize_t w = write(fd, s.data()+n, s.size()-n); if (w <= 0) _exit(98); n += w; } }
public:
  explicit Out(int f) : fd(f) {}
  void begin(const std::string& id, const std::string& cfg) { put("{\"id\":" + id + ",\"c\":" + cfg + ",\"s\":["); }
  void step(const J& j) { put((first ? "" : ",") + j.str()); first = false; }
  void end() { put("]}\n"); }
};

//! Runs one scenario: first emits the configuration (cfg), then the steps.
using Runner = std::function<void(In&, Out&, const std::string& id)>;

inline int drive(int argc, char** argv, const Runner& run)
{
  if (argc < 3) { std::fprintf(stderr, "usage: %s scenarios traces\n", argv[0]); return 2; }
  std::ifstream in(argv[1]);
  FILE* out = std::fopen(argv[2], "w");
  if (!in || !out) return 2;
  int devnull = open("/dev/null", O_WRONLY);
  bool verbose = getenv("VF_VERBOSE");
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    std::string id = line.substr(0, line.find(' '));
    std::string rest = line.size() > id.size() ? line.substr(id.size() + 1) : "";
    int p[2];
    if (pipe(p)) return 2;
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(p[0]);
      if (!verbose) { dup2(devnull, 1); dup2(devnull, 2); }
      struct rlimit rl { 20, 25 };
      setrlimit(RLIMIT_CPU, &rl);
      struct rlimit rc { 0, 0 };
      setrlimit(RLIMIT_CORE, &rc);
      alarm(200);
      In is(rest);
      Out os(p[1]);
      run(is, os, id);
      os.end();
      _exit(0);
    }
    close(p[1]);
    std::string text;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) text.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      std::fputs(text.c_str(), out);
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 98)) {
      std::fprintf(stderr, "scenario %s: driver error %d\n", id.c_str(), WEXITSTATUS(st));
      return 3;
    } else {
      if (text.empty()) text = "{\"id\":" + id + ",\"c\":{},\"s\":[";
      if (text.back() != '[') text += ",";
      int code = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
      text += "{\"op\":\"crash\",\"sig\":" + std::to_string(code) + "}]}\n";
      std::fputs(text.c_str(), out);
    }
  }
  return std::fclose(out) ? 2 : 0;
}

}
#endif
