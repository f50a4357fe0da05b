// Malformed input: damaged descriptions must be refused with a message or handled, never crash or loop.
#include "api.h"
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>

struct Proc { int status = 0; string out, err; bool phase2 = false; };
// Runs f in a child; f may call mark() once the input has been read.
static Proc isolated(const std::function<void(const std::function<void()> &)> &f) {
  int m[2]; if (pipe(m)) inconc("pipe");
  int efd = syscall(SYS_memfd_create, "err", 0);
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    close(m[0]); dup2(efd, 2);
    f([&] { char x = 'r'; if (write(m[1], &x, 1)) {} });
    leave(0);
  }
  close(m[1]);
  Proc p; char b[4096]; ssize_t n;
  while ((n = read(m[0], b, sizeof b)) > 0) p.phase2 = true;
  close(m[0]);
  waitpid(pid, &p.status, 0);
  lseek(efd, 0, SEEK_SET);
  while ((n = read(efd, b, sizeof b)) > 0 && p.err.size() < 8000) p.err.append(b, n);
  close(efd);
  return p;
}
static vector<string> lines(const string &s) { vector<string> r; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == string::npos) j = s.size() - 1; r.push_back(s.substr(i, j - i + 1)); i = j + 1; } return r; }
static string damage(Rng &g, string t, const vector<string> &other) {
  static const char *junk[] = {"0", "-1", "1", "2", "-2147483648", "2147483647", "4294967296", "99999999999999999999999999", "x", "#", "%s%n", "", "\n", "1 1", "0 0", "3 2 1 0 0 1", "{", "}", "[", "]", "->", "{ [i] : 0 <= i <= 9 }", "[N] -> { [i,j] : i = 2j }", "\t", "\"", "1e9", "0x10", "1.5", "c", "f", "stop"};
  int n = g.p(0.5) ? 1 : g.in(2, 5);
  for (int k = 0; k < n; ++k) {
    if (t.empty()) t = "c\n";
    size_t at = g.in(0, (int)t.size() - 1);
    switch (g.in(0, 13)) {
    case 0: t.resize(at); break;                                   // truncate
    case 1: t.erase(at, g.in(1, 20)); break;
    case 2: t[at] = (char)g.in(0, 255); break;
    case 3: t.insert(at, string(1, (char)g.in(1, 255))); break;
    case 4: case 5: case 6: {                                       // replace a token
      vector<std::pair<size_t, size_t>> tk; size_t i = 0;
      while (i < t.size()) { while (i < t.size() && isspace((unsigned char)t[i])) ++i; size_t j = i; while (j < t.size() && !isspace((unsigned char)t[j])) ++j; if (j > i) tk.push_back({i, j - i}); i = j; }
      if (tk.empty()) break;
      auto w = g.pick(tk); t.replace(w.first, w.second, junk[g.in(0, 29)]);
      break; }
    case 7: { auto l = lines(t); int i = g.in(0, (int)l.size() - 1); l.erase(l.begin() + i); t.clear(); for (auto &x : l) t += x; break; }
    case 8: { auto l = lines(t); int i = g.in(0, (int)l.size() - 1); l.insert(l.begin() + i, l[i]); t.clear(); for (auto &x : l) t += x; break; }
    case 9: { auto l = lines(t); int i = g.in(0, (int)l.size() - 1), j = g.in(0, (int)l.size() - 1); std::swap(l[i], l[j]); t.clear(); for (auto &x : l) t += x; break; }
    case 10: { size_t j = t.find('\n', at); t.insert(j == string::npos ? t.size() : j, string(g.p(0.5) ? g.in(40, 120) : g.in(900, 3000), g.p(0.5) ? 'a' : ' ')); break; } // long line
    case 11: t.insert(at, junk[g.in(0, 29)]); break;
    case 12: { auto l = lines(t), m = other; if (m.empty()) break; size_t cut = g.in(0, (int)l.size()), from = g.in(0, (int)m.size() - 1); t.clear(); for (size_t i = 0; i < cut; ++i) t += l[i]; for (size_t i = from; i < m.size(); ++i) t += m[i]; break; } // splice
    case 13: { size_t j = t.find_first_of("0123456789", at); if (j == string::npos) break; size_t e = t.find_first_not_of("0123456789", j); if (e == string::npos) e = t.size(); t.replace(j, e - j, std::to_string(g.in(0, 12))); break; }
    }
    if (t.size() > 12000) t.resize(12000);
  }
  return t;
}
static bool hugeNumber(const string &s) { int k = 0; for (char ch : s) { if (isdigit((unsigned char)ch)) { if (++k >= 6) return true; } else k = 0; } return false; } // sizes no machine can serve
static void badMatrix(Case &c) {
  Rng &g = c.g; int r = g.in(0, 4), k = g.in(0, 5); vector<vector<string>> v; string t = g.p(0.3) ? "# comment\n\n" : "";
  t += fmt("%d %d\n", r, k);
  for (int i = 0; i < r; ++i) { v.push_back({}); string row; for (int j = 0; j < k; ++j) { string x = std::to_string(g.in(-9, 9)); if (x != "0" && g.p(0.1)) x += "0000000000000000000000"; v[i].push_back(x); row += " " + x; } if (k && g.p(0.2)) t += "# a row\n"; t += k ? row + "\n" : " x\n"; }
  bool dam = g.p(0.6); string s = dam ? damage(g, t, {}) : t;
  c.say(s);
  int fd[2]; if (pipe(fd)) inconc("pipe");
  Proc p = isolated([&](const std::function<void()> &) {
    rlimit q; q.rlim_cur = 5; q.rlim_max = 6; setrlimit(RLIMIT_CPU, &q);
    FILE *f = memfile(s); CloogMatrix *m = cloog_matrix_read(f); fclose(f);
    FILE *o = fdopen(fd[1], "w"); cloog_matrix_print(o, m); fclose(o); cloog_matrix_free(m);
  });
  close(fd[1]); string out; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n); close(fd[0]);
  if (WIFSIGNALED(p.status) && WTERMSIG(p.status) == SIGXCPU) { if (hugeNumber(s)) inconc("huge matrix"); viol("reading a matrix did not end"); }
  if (!WIFEXITED(p.status) || WEXITSTATUS(p.status) > 1) viol(fmt("status %d reading a matrix\n", p.status) + p.err.substr(0, 1500));
  if (WEXITSTATUS(p.status)) { if (p.err.empty()) viol("a matrix was refused without a message"); if (!dam) viol("a well-formed matrix was refused: " + p.err); c.st["matrices_refused"]++; }
  else {
    c.st["matrices_accepted"]++;
    // rows with missing entries must not be accepted
    size_t i = 0; auto ls = lines(s); vector<string> keep; for (auto &l : ls) { size_t q = 0; while (q < l.size() && l[q] != '\n' && isspace((unsigned char)l[q])) ++q; if (q < l.size() && l[q] != '#' && l[q] != '\n' ) keep.push_back(l); if (l.size() > 1000) i = 1; }
    unsigned a, e;
    if (!i && keep.size() && s.find('\0') == string::npos && sscanf(keep[0].c_str(), "%u %u", &a, &e) == 2 && a < 100 && e >= 1 && e < 100) {
      if (keep.size() < 1 + a) viol("a matrix with missing rows was accepted");
      for (unsigned k = 0; k < a; ++k) { unsigned cnt = 0; bool in = false; for (unsigned char ch : keep[1 + k]) { bool sp = isspace(ch); if (!sp && !in) ++cnt; in = !sp; } if (cnt < e) viol("a matrix row with missing entries was accepted: " + keep[1 + k]); c.st["matrix_rows_checked"]++; }
    }
    if (!dam) { string e = fmt("%d %d\n", r, k); for (auto &row : v) { for (auto &x : row) e += x + " "; e += "\n"; } if (out != e) viol("a matrix read and printed is\n" + out + "instead of\n" + e); }
  }
  c.hash = hstr(s); c.nontrivial = true; c.sample = "matrix | " + s.substr(0, 100);
}
MODEC(bad, 12) {
  if (c.g.p(0.08)) { badMatrix(c); return; }
  InstCfg cfg; cfg.pCorpus = 0.25; cfg.pMut = 0; cfg.gen.maxStmt = 3; cfg.gen.maxDim = 3;
  Inst in = makeInst(c, cfg), other = makeInst(c, cfg);
  string t = c.g.p(0.02) ? "" : damage(c.g, in.text, lines(other.text));
  Opt o = genOpt(c.g, in, c.g.p(0.3));
  c.say(t + "# options:" + o.str() + "\n");
  auto limited = [&](int cpu) { rlimit r; r.rlim_cur = cpu; r.rlim_max = cpu + 1; setrlimit(RLIMIT_CPU, &r); };
  Proc p = isolated([&](const std::function<void()> &mark) {
    limited(5);
    Lib L; o.apply(L.o);
    FILE *f = memfile(t);
    CloogInput *i = cloog_input_read(f, L.o); fclose(f);
    mark();
    clast_stmt *r = cloog_clast_create_from_input(i, L.o);
    printAst(r, L.o);
    cloog_clast_free(r);
  });
  string e = p.err.substr(0, 1500);
  if (WIFSIGNALED(p.status)) {
    int s = WTERMSIG(p.status);
    if (s == SIGXCPU || s == SIGKILL || s == SIGALRM) { if (!p.phase2 && !hugeNumber(t)) viol("reading a damaged input of " + std::to_string(t.size()) + " bytes did not end"); inconc("cpu limit in generation"); }
    viol(fmt("killed by signal %d (%s) %s a damaged input\n", s, strsignal(s), p.phase2 ? "generating from" : "reading") + e);
  }
  int x = WEXITSTATUS(p.status);
  if (x != 0 && x != 1) viol(fmt("ended with status %d %s a damaged input\n", x, p.phase2 ? "generating from" : "reading") + e);
  if (x == 1 && p.err.empty()) viol("a damaged input was refused without a message");
  c.st[x ? (p.phase2 ? "refused_in_generation" : "refused") : "accepted"]++;
  c.hash = hstr(t); c.nontrivial = true;
  c.sample = (x ? "refused: " + p.err.substr(0, 100) : "accepted") + " | " + t.substr(0, 200);
}
