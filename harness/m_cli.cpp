// The command-line tool: arguments, streams, exit status, and agreement with the library.
#include "api.h"
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

struct Run { int st = 0; string out, err; };
static string slurp(const string &p) { string r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
static void spill(const string &p, const string &s) { FILE *f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static Run tool(const string &dir, const vector<string> &args, const string &in) {
  const char *exe = getenv("VERIF_CLI"); if (!exe) inconc("no tool");
  string si = dir + "/.in", so = dir + "/.out", se = dir + "/.err"; spill(si, in);
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str())) _exit(99);
    dup2(open(si.c_str(), O_RDONLY), 0); dup2(open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 1); dup2(open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), 2);
    vector<char *> a; a.push_back((char *)"cloog"); for (auto &x : args) a.push_back((char *)x.c_str()); a.push_back(nullptr);
    execv(exe, a.data()); _exit(99);
  }
  Run r; waitpid(pid, &r.st, 0);
  r.out = slurp(so); r.err = slurp(se);
  if (WIFSIGNALED(r.st) && (WTERMSIG(r.st) == SIGXCPU || WTERMSIG(r.st) == SIGKILL)) inconc("cpu limit in the tool");
  if (!WIFEXITED(r.st) || WEXITSTATUS(r.st) > 1) viol(fmt("the tool ended with status %d\n", r.st) + r.err.substr(0, 1500));
  return r;
}
static string firstLine(const string &t) { return t.substr(0, t.find('\n')); }
static string rest(const string &t) { size_t n = t.find('\n'); return n == string::npos ? "" : t.substr(n + 1); }
MODEC(cli, 15) {
  Rng &g = c.g;
  string dir = c.scratch + fmt("/cli%ld", c.idx); mkdir(dir.c_str(), 0700);
  struct Clean { string d; ~Clean() { if (d.size() > 5) if (system(("rm -rf '" + d + "'").c_str())) {} } } clean{dir};
  InstCfg cfg; cfg.pCorpus = 0.3; cfg.pMut = 0;
  Inst in = makeInst(c, cfg);
  if (g.p(0.2)) { in.c.lang = 'f'; in.emit(); }
  static const char *INS[] = {"stdin.cloog", "stdinput", "case.stdin", "std", "a b.cloog", "%s%d%n", "sub/stdin", "sub/../case", "./stdin", "stdout", "c"};
  static const char *OUTS[] = {"stdout.c", "stdout2", "std", "stdin", "./stdout", "out put", "sub/stdout", "a.stdout", "Stdout", "c1"};
  static const char *UNK[] = {"-nosuchoption", "-lx", "-ff", "-stops", "-stride", "-first", "-O", "-out", "-callabl", "-compilable1", "-leak", "-structs", "-otl1", "-e", "-s", "--quie", "-fs", "-noblock", "-backtracks"};
  string name = "case", oname = "result";
  if (g.p(0.35)) name = INS[g.in(0, 10)];
  if (g.p(0.6)) do oname = OUTS[g.in(0, 9)]; while (oname == name || "./" + oname == name || "./" + name == oname);
  mkdir((dir + "/sub").c_str(), 0700);
  spill(dir + "/" + name, in.text);
  Opt o = genOpt(g, in, true); o.fs.clear(); o.ls.clear(); o.save_domains = 0;
  int lev = in.p().nscat + in.p().maxdim();
  if (g.p(0.15)) o.stop = g.in(0, lev);
  if (g.p(0.1)) o.backtrack = 1;
  if (g.p(0.1)) o.override_ = 1;
  if (in.c.lang != 'f') { if (g.p(0.15)) o.callable = 1; else if (g.p(0.15)) o.compilable = g.in(1, 50); }
  vector<vector<string>> gr;
  auto num = [&](const char *n, int v, int d) { if (v != d || g.p(0.1)) gr.push_back({n, std::to_string(v)}); };
  Opt d;
  bool loopo = g.p(0.05); if (loopo) { o.esp = 0; o.block = 1; gr.push_back({"-loopo"}); }
  num("-l", o.l, d.l); num("-f", o.f, d.f); num("-stop", o.stop, d.stop); num("-strides", o.strides, d.strides); num("-sh", o.sh, d.sh);
  num("-first-unroll", o.first_unroll, d.first_unroll); if (!loopo) { num("-esp", o.esp, d.esp); num("-block", o.block, d.block); } num("-fsp", o.fsp, d.fsp); num("-otl", o.otl, d.otl);
  num("-callable", o.callable, d.callable); num("-compilable", o.compilable, d.compilable);
  if (o.noblocks) gr.push_back({"-noblocks"}); if (o.noscalars) gr.push_back({"-noscalars"}); if (o.override_) gr.push_back({"-override"});
  if (o.backtrack) gr.push_back({"-backtrack"}); else if (g.p(0.1)) gr.push_back({g.p(0.5) ? "-nobacktrack" : "-bipbip"});
  bool quiet = g.p(0.5); if (quiet) gr.push_back({g.p(0.5) ? "-q" : "--quiet"});
  string unk = UNK[g.in(0, 18)]; bool unknown = g.p(0.1); if (unknown) gr.push_back({unk});
  int odest = g.p(0.3) ? 1 : g.p(0.1) ? 2 : 0; if (odest) gr.push_back({"-o", odest == 1 ? oname : string("stdout")});
  bool leaks = g.p(0.1); if (leaks) gr.push_back({"-leaks"});
  int info = g.p(0.06) ? g.in(1, 4) : 0; if (info) gr.push_back({info == 1 ? "-h" : info == 2 ? "--help" : info == 3 ? "-v" : "--version"});
  bool structure = g.p(0.06); if (structure) gr.push_back({g.p(0.5) ? "-structure" : "-struct"});
  bool fromStdin = g.p(0.3); gr.push_back({fromStdin ? string("stdin") : name});
  int err = g.p(0.25) ? g.in(1, 7) : 0; // one mistake on the command line
  switch (err) {
  case 1: gr.pop_back(); gr.push_back({"nosuchfile"}); break;
  case 2: gr.push_back({name}); break;
  case 3: gr.pop_back(); break;
  case 5: gr.push_back({g.p(0.5) ? "-l" : "-otl", g.p(0.5) ? "abc" : g.p(0.5) ? "1x" : ""}); break;
  case 6: gr.push_back({"-o", "no/such/dir/out"}); break;
  }
  for (size_t i = gr.size(); i > 1; --i) std::swap(gr[i - 1], gr[g.in(0, i - 1)]);
  if (err == 4) gr.push_back({g.p(0.5) ? "-f" : "-strides"});
  if (err == 7) gr.push_back({"-o"});
  vector<string> args; string cl; for (auto &x : gr) for (auto &y : x) { args.push_back(y); cl += " '" + y + "'"; }
  c.say(in.text + "# cloog" + cl + "\n");
  Run r = tool(dir, args, fromStdin ? in.text : "");
  int x = WEXITSTATUS(r.st);
  if (err) {
    if (x == 0) viol(fmt("a wrong command line (case %d) ended with status 0", err));
    if (r.err.find("ERROR") == string::npos && !(err == 3 && info)) viol("a wrong command line was refused without an error message");
    c.st["command_lines_refused"]++;
    c.hash = hstr(cl); c.nontrivial = true; c.sample = cl + " | " + r.err.substr(0, 80);
    return;
  }
  if (x && r.err.find("unbounded loops not allowed in FORTRAN") != string::npos) inconc("unbounded loop in FORTRAN");
  if (x) viol("a valid command line was refused: " + r.err.substr(0, 500));
  string text = odest == 1 ? slurp(dir + "/" + oname) : r.out;
  if (info && r.out.find(info < 3 ? "Usage: cloog" : "The Chunky Loop Generator") == string::npos) viol("the information asked for is missing");
  if (structure && r.out.find("CloogProgram") == string::npos) viol("the structure asked for is missing");
  if ((info || structure) && odest != 1) { size_t k = text.find(in.c.lang == 'f' ? "! Generated from " : "/* Generated from "); if (k == string::npos) viol("no code after the information"); text = text.substr(k); c.st["with_information"]++; }
  if (r.err.find("ERROR") != string::npos || r.err.find("internal problem") != string::npos) viol("a valid command line gave: " + r.err.substr(0, 300));
  if (slurp(dir + "/" + name) != in.text) viol("the input file was changed");
  auto base = [](const string &n) { size_t k = n.rfind('/'); return k == string::npos ? n : n.substr(k + 1); };
  for (string sub : {"", "/sub"}) if (DIR *D = opendir((dir + sub).c_str())) {
    while (dirent *e = readdir(D)) { string n = e->d_name; if (n[0] != '.' && n != "sub" && n != base(name) && !(n == base(oname) && odest == 1)) { closedir(D); viol("the tool wrote a file nobody asked for: " + n); } }
    closedir(D);
  }
  if (odest == 1 && !info && !structure && !r.out.empty()) viol("with -o the tool still wrote on its standard output: " + r.out.substr(0, 200));
  if (text.empty()) viol("the tool wrote nothing");
  Lib L; o.apply(L.o);
  string ref = generateText(L, in.text);
  string want = firstLine(ref), got = firstLine(text); size_t k;
  if ((k = want.find(" case ")) == string::npos) viol("no input name in the first line: " + want);
  if (fromStdin) want.replace(k, 6, " stdin "); else want.replace(k, 6, " " + name + " ");
  auto cut = [](string s) { size_t i = s.find(" by "); return i == string::npos ? s : s.substr(0, i); };
  if (cut(want) != cut(got)) viol("first line is '" + got + "' instead of '" + want + "'");
  string body = rest(text), rb = rest(ref);
  if (leaks) {
    vector<string> ls; size_t p; string b2;
    while ((p = body.find("/* Domains    : allocated=")) != string::npos) { b2 = body.substr(p); body.resize(p); }
    int n = 0; size_t i = 0; while (i < b2.size()) { size_t j = b2.find('\n', i); int a, f, m; const char *q = strstr(b2.substr(i, j - i).c_str(), "allocated="); string ln = b2.substr(i, j - i); q = strstr(ln.c_str(), "allocated="); if (!q || sscanf(q, "allocated=%d, freed=%d, max=%d", &a, &f, &m) != 3) viol("unreadable statistics: " + ln); if (a != f) viol("statistics: " + ln); if (m > a || (a && !m)) viol("statistics: " + ln); ++n; i = j + 1; }
    if (n != 4) viol("-leaks printed no statistics");
    c.st["leak_reports"]++;
  }
  if (body != rb) { c.say("/* tool:\n" + body + "*/\n/* library:\n" + rb + "*/\n"); viol("the tool and the library print different code for the same input and options"); }
  bool warn = r.err.find("unknown " + unk + " option") != string::npos;
  if (unknown && !quiet && !warn) viol("no warning about an unknown option");
  c.st["command_lines_accepted"]++; if (fromStdin) c.st["from_stdin"]++; if (odest == 1) c.st["to_file"]++;
  c.hash = hstr(in.text + cl); c.nontrivial = true; c.sample = cl;
}
