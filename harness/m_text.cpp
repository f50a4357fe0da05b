// Monitors of the printed code: parsed and executed, and compiled and executed.
#include "frame.h"
#include <fstream>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <sys/stat.h>
extern char **environ;

static int stmtNo(const string &n) {
  if (n.size() < 2 || n[0] != 'S') return -1;
  for (size_t i = 1; i < n.size(); ++i) if (!isdigit((unsigned char)n[i])) return -1;
  return atoi(n.c_str() + 1);
}
static vector<Vec> usable(Case &c, const Inst &in, int want, long budget, long *total) {
  auto pars = paramsFor(c, in, want);
  if (pars.empty()) inconc("no parameter value satisfies the context");
  vector<Vec> keep; long t = 0;
  for (auto &v : pars) { try { t += in.expect(v, budget).total; keep.push_back(v); } catch (TooBig &) {} }
  if (keep.empty()) inconc("too many points to enumerate");
  if (total) *total = t;
  return keep;
}
static vector<Ev> traceText(const vector<TS> &prog, const Inst &in, const Vec &par, bool fortran, long *neg) {
  vector<Ev> t; TextInterp ip; ip.fortran = fortran;
  bindParams(ip.env, in, par);
  ip.onCall = [&](const string &n, const Vec &v) { int s = stmtNo(n); if (s < 0) viol("printed code calls an unknown statement " + n); t.push_back({s, v}); };
  ip.run(prog);
  *neg += ip.negMod;
  return t;
}
static void monitorTrace(Case &c, const vector<Ev> &t, const Inst &in, const Vec &par, const string &where) {
  Expect e = in.expect(par, 60000);
  Monitor m(e, true, where + " " + parStr(in, par));
  for (auto &x : t) m.event(x.s - 1, x.v);
  m.finish();
  c.st["instances"] += m.seen; c.st["ordered_pairs"] += m.ordered; c.st["executions"]++;
}

static void textCase(Case &c, bool fortran) {
  InstCfg cfg; cfg.pCorpus = 0.12;
  Inst in = makeInst(c, cfg);
  in.c.lang = fortran ? 'f' : 'c';
  in.emit();
  Opt o = genOpt(c.g, in, c.g.p(0.5));
  if (!fortran && c.g.p(0.1) && !in.p().st.empty()) {
    // statement-wise -f/-l: the library leaves keeping them legal to the caller (last level not below
    // the scattering, no duplication when the first level is beyond one)
    int ns = in.p().nscat, f = c.g.p(0.7) ? 1 : (int)c.g.in(1, ns + 1), l = f > 1 ? ns : ns + (int)c.g.in(0, 3);
    if (l >= f && l >= 1) o.fs.assign(in.p().st.size(), f), o.ls.assign(in.p().st.size(), l);
  }
  c.say(in.text + "# options:" + o.str() + "\n");
  long total = 0;
  auto keep = usable(c, in, 4, 60000, &total);
  string text, astText; vector<vector<Ev>> ta;
  {
    Lib L; o.apply(L.o);
    if (fortran) L.o->language = CLOOG_LANGUAGE_FORTRAN;
    clast_stmt *root = generate(L, in.text);
    AstStats a; astStats(root, a);
    c.st["ast_for"] += a.fors; c.st["ast_guard"] += a.guards; c.st["ast_strided_for"] += a.strided; c.st["ast_mod"] += a.mods; c.st["ast_minmax"] += a.minmax; c.st["ast_div"] += a.divs; c.st["ast_block"] += a.blocks;
    if (fortran) L.o->language = CLOOG_LANGUAGE_FORTRAN;
    for (auto &v : keep) ta.push_back(traceAst(root, in, v));
    { // the names given, or the documented ones
      vector<string> order; for (int i = 0; i < in.p().nscat; ++i) order.push_back(in.p().snames ? in.p().sn[i] : fmt("c%d", i + 1));
      for (int i = 0; i < in.p().maxdim(); ++i) order.push_back(in.iname(i));
      c.st["names_checked"] += checkNesting(root, order);
    }
    // FORTRAN has no way to write a loop without bounds (over a set with unbounded slices for other parameter values)
    if (fortran && a.unbounded) { cloog_clast_free(root); inconc("unbounded loop"); }
    astText = printAst(root, L.o);
    cloog_clast_free(root);
  }
  { Lib L; o.apply(L.o); text = generateText(L, in.text); }
  c.say("/*\n" + text + "*/\n");
  // The AST printed alone gives the same code as the whole tool, after the header comment.
  { size_t nl = text.find('\n'); string body = nl == string::npos ? "" : text.substr(nl + 1);
    if (body != astText) viol("the code printed from the AST and the code printed by the tool differ"); }
  vector<TS> prog = fortran ? FortranParser::parse(text) : CodeParser::parse(text);
  long neg = 0;
  for (size_t k = 0; k < keep.size(); ++k) {
    auto t = traceText(prog, in, keep[k], fortran, &neg);
    string d = traceDiff(ta[k], t);
    if (!d.empty()) viol("AST and printed code differ for " + parStr(in, keep[k]) + ": " + d);
    monitorTrace(c, t, in, keep[k], "printed code, options" + o.str());
  }
  c.st["negative_modulo_guards"] += neg;
  c.st["programs"]++;
  c.hash = hstr(text.substr(text.find('\n') + 1)); c.nontrivial = total > 0;
  if (c.nontrivial) c.sample = "options" + o.str() + " -> " + text.substr(text.find('\n') + 1, 500);
}
MODE(text) { textCase(c, false); }
MODE(fort) { textCase(c, true); }

// ------------------------------------------------ compiled by a real compiler
static int runCmd(const vector<string> &a, const string &out, int secs) {
  vector<char *> av; for (auto &x : a) av.push_back((char *)x.c_str()); av.push_back(nullptr);
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  posix_spawn_file_actions_addopen(&fa, 2, (out + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  pid_t pid; int r = posix_spawnp(&pid, av[0], &fa, nullptr, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa);
  if (r) inconc("cannot start " + a[0]);
  int st; for (int i = 0; i < secs * 200; ++i) { if (waitpid(pid, &st, WNOHANG) == pid) { if (WIFSIGNALED(st)) return 128 + WTERMSIG(st); return WEXITSTATUS(st); } usleep(5000); }
  kill(pid, SIGKILL); waitpid(pid, &st, 0);
  inconc(a[0] + " took too long");
}
static string slurp(const string &p, size_t max = 1 << 24) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); string s = o.str(); if (s.size() > max) s.resize(max); return s; }
static void spit(const string &p, const string &s) { std::ofstream f(p, std::ios::binary); f << s; }

static vector<Ev> eventsFromInts(const vector<long> &v, const Inst &in) {
  vector<Ev> t;
  for (size_t i = 0; i < v.size();) {
    long s = v[i++];
    if (s == 0) { continue; }
    if (s < 1 || s > (long)in.p().st.size()) viol(fmt("compiled code runs unknown statement %ld", s));
    Ev e; e.s = s; int d = in.p().st[s - 1].dim;
    for (int k = 0; k < d; ++k) { if (i >= v.size()) viol("compiled code gives too few arguments"); e.v.push_back(v[i++]); }
    t.push_back(e);
  }
  return t;
}
struct NegScan { bool neg = false; };
static bool sawNegMod(Lib &L, const Inst &in, const vector<Vec> &keep, bool bounded = false) {
  clast_stmt *root = generate(L, in.text);
  AstStats a; astStats(root, a);
  bool neg = false;
  for (auto &v : keep) { ClastInterp ip; bindParams(ip.env, in, v); ip.run(root); if (ip.negMod) neg = true; }
  cloog_clast_free(root);
  if (bounded && a.unbounded) inconc("unbounded loop");
  return neg;
}
// -callable and -compilable: built by gcc and run natively
MODE(cc) {
  InstCfg cfg; cfg.pCorpus = 0.12;
  Inst in = makeInst(c, cfg);
  in.c.lang = 'c'; in.emit();
  Opt o = genOpt(c.g, in, c.g.p(0.4));
  bool comp = c.g.p(0.4);
  if (comp) o.compilable = c.g.in(1, 9); else o.callable = 1;
  c.say(in.text + "# options:" + o.str() + "\n");
  long total = 0;
  vector<Vec> keep;
  if (comp) {
    Vec v(in.npar(), o.compilable);
    if (!ctxHolds(in.p(), v)) inconc("no parameter value satisfies the context");
    try { total = in.expect(v, 60000).total; } catch (TooBig &) { inconc("too many points to enumerate"); }
    keep.push_back(v);
  } else keep = usable(c, in, 4, 40000, &total);
  string text;
  { Lib L; o.apply(L.o); if (sawNegMod(L, in, keep)) { c.st["negative_modulo_guards"]++; inconc("known finding: modulo guard on a negative value"); } }
  { Lib L; o.apply(L.o); text = generateText(L, in.text); }
  c.say("/*\n" + text + "*/\n");
  string d = c.scratch, src = d + "/t.c", exe = d + "/t.exe";
  if (comp) spit(src, text);
  else {
    string drv = "#include <stdio.h>\nvoid hash(int v) { printf(\"%d\\n\", v); }\n" + text + "int main(void) {\n";
    for (auto &v : keep) { drv += "  test("; for (size_t i = 0; i < v.size(); ++i) drv += (i ? "," : "") + istr(v[i]); drv += "); puts(\"end\");\n"; }
    spit(src, drv + "  return 0; }\n");
  }
  if (runCmd({"gcc", "-O0", "-w", "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-o", exe, src, "-lm"}, d + "/o", 60)) viol("generated C does not compile: " + slurp(d + "/o.err", 600));
  int rc = runCmd({exe}, d + "/o", 20);
  if (rc) viol(fmt("generated program ends with status %d", rc));
  std::ifstream f(d + "/o"); string l;
  if (comp) {
    vector<long> ints; long dimless = 0, totalSaid = -1; vector<Ev> t;
    while (std::getline(f, l)) {
      long n;
      if (sscanf(l.c_str(), "Number of integral points: %ld.", &n) == 1) { totalSaid = n; continue; }
      std::istringstream is(l); string w; is >> w; int s = stmtNo(w); if (s < 1 || s > (int)in.p().st.size()) viol("unexpected output line: " + l);
      Ev e; e.s = s; long x; while (is >> x) e.v.push_back(x);
      t.push_back(e);
    }
    // statements without iterators print nothing: only the count tells about them
    Expect e = in.expect(keep[0], 60000);
    for (size_t s = 0; s < e.st.size(); ++s) if (in.p().st[s].dim == 0) dimless += e.st[s].size();
    if (totalSaid != e.total) viol(fmt("compiled program counts %ld points, %ld expected", totalSaid, e.total));
    Monitor m(e, false, "compiled code " + parStr(in, keep[0]));
    for (auto &x : t) m.event(x.s - 1, x.v);
    if (m.seen + dimless != e.total) m.finish();
    if (!dimless) { Expect e2 = in.expect(keep[0], 60000); Monitor m2(e2, true, "compiled code " + parStr(in, keep[0])); for (auto &x : t) m2.event(x.s - 1, x.v); }
    c.st["instances"] += e.total; c.st["executions"]++; c.st["programs_compilable"]++;
  } else {
    for (auto &v : keep) {
      vector<long> ints; bool end = false;
      while (std::getline(f, l)) { if (l == "end") { end = true; break; } ints.push_back(atol(l.c_str())); }
      if (!end) viol("compiled code did not finish");
      monitorTrace(c, eventsFromInts(ints, in), in, v, "compiled code, options" + o.str());
    }
    c.st["programs_callable"]++;
  }
  c.hash = hstr(text.substr(text.find('\n') + 1)); c.nontrivial = total > 0;
  if (c.nontrivial) c.sample = "options" + o.str() + ", compiled and run: " + fmt("%ld instances", total);
}
// FORTRAN built by gfortran and run natively
MODE(ff) {
  InstCfg cfg; cfg.pCorpus = 0.12; cfg.gen.pNames = 0; // names of the generator may collide once case is folded
  Inst in = makeInst(c, cfg);
  in.c.lang = 'f';
  if (in.corpus) { in.c.p.pnames = in.c.p.inames = in.c.p.snames = false; }
  in.emit();
  Opt o = genOpt(c.g, in, c.g.p(0.4));
  c.say(in.text + "# options:" + o.str() + "\n");
  long total = 0;
  auto keep = usable(c, in, 3, 40000, &total);
  if (in.p().maxdim() + in.npar() > 10) inconc("names collide once case is folded");
  string text;
  { Lib L; o.apply(L.o); if (sawNegMod(L, in, keep, true)) { c.st["negative_modulo_guards"]++; inconc("known finding: modulo guard on a negative value"); } }
  { Lib L; o.apply(L.o); text = generateText(L, in.text); }
  c.say(text);
  // default names: iterators i,j,k,.. parameters M,N,.. ; FORTRAN ignores case
  std::set<string> low; string decl;
  auto add = [&](string n) { string k = n; for (auto &ch : k) ch = tolower(ch); if (!low.insert(k).second) inconc("names collide once case is folded"); return n; };
  for (int i = 0; i < in.npar(); ++i) add(in.pname(i));
  for (int i = 0; i < in.p().maxdim(); ++i) decl += (decl.empty() ? "" : ", ") + add(in.iname(i));
  for (int i = 0; i < in.p().nscat; ++i) decl += (decl.empty() ? "" : ", ") + add(fmt("c%d", i + 1));
  string body; std::istringstream is(text); string l;
  while (std::getline(is, l)) {
    size_t b = l.find_first_not_of(" ");
    if (b != string::npos && l[b] == 'S' && b + 1 < l.size() && isdigit((unsigned char)l[b + 1])) l = string(b, ' ') + "CALL " + l.substr(b);
    body += l + "\n";
  }
  string pl; for (int i = 0; i < in.npar(); ++i) pl += (i ? ", " : "") + in.pname(i);
  string s = "SUBROUTINE test(" + pl + ")\n  IMPLICIT NONE\n"; // lines starting with C are only comments in fixed form
  if (!pl.empty()) s += "  INTEGER :: " + pl + "\n";
  if (!decl.empty()) s += "  INTEGER :: " + decl + "\n";
  s += body + "END SUBROUTINE\n";
  for (size_t k = 0; k < in.p().st.size(); ++k) {
    int d = in.p().st[k].dim; string a; for (int j = 0; j < d; ++j) a += (j ? ", " : "") + fmt("a%d", j);
    s += fmt("SUBROUTINE S%zu(%s)\n", k + 1, a.c_str()) + (d ? "  INTEGER :: " + a + "\n" : "") + fmt("  PRINT *, %zu%s%s\nEND SUBROUTINE\n", k + 1, d ? ", " : "", a.c_str());
  }
  s += "PROGRAM p\n";
  for (auto &v : keep) { s += "  CALL test("; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + istr(v[i]); s += ")\n  PRINT *, -1\n"; }
  s += "END PROGRAM\n";
  string d = c.scratch, src = d + "/t.f90", exe = d + "/tf.exe";
  spit(src, s);
  if (runCmd({"gfortran", "-O0", "-w", "-ffree-line-length-none", "-o", exe, src}, d + "/of", 60)) viol("generated FORTRAN does not compile: " + slurp(d + "/of.err", 900));
  int rc = runCmd({exe}, d + "/of", 20);
  if (rc) viol(fmt("generated FORTRAN program ends with status %d", rc));
  std::ifstream f(d + "/of"); string tok; vector<vector<long>> groups(1);
  while (f >> tok) { long x = atol(tok.c_str()); groups.back().push_back(x); }
  // split at -1 where a statement number is expected
  vector<long> all = groups[0]; size_t i = 0;
  for (auto &v : keep) {
    vector<Ev> t; bool end = false;
    while (i < all.size()) {
      long sn = all[i++];
      if (sn == -1) { end = true; break; }
      if (sn < 1 || sn > (long)in.p().st.size()) viol("unexpected FORTRAN output");
      Ev e; e.s = sn; for (int k = 0; k < in.p().st[sn - 1].dim && i < all.size(); ++k) e.v.push_back(all[i++]);
      t.push_back(e);
    }
    if (!end) viol("FORTRAN code did not finish");
    monitorTrace(c, t, in, v, "compiled FORTRAN, options" + o.str());
  }
  c.st["programs"]++;
  c.hash = hstr(text.substr(text.find('\n') + 1)); c.nontrivial = total > 0;
  if (c.nontrivial) c.sample = "options" + o.str() + ", compiled and run: " + fmt("%ld instances", total);
}
