// Shrinks a failing (problem, options, parameter values) triple.
#include "frame.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
struct Trip { Inst in; Opt o; Vec par; bool order = true; };
// class of failure: "" when fine
static string fails(Trip t, string *msg = nullptr) {
  t.in.emit();
  int p[2]; if (pipe(p)) exit(2);
  pid_t pid = fork();
  if (!pid) {
    close(p[0]); int n = open("/dev/null", O_RDWR); dup2(n, 2); dup2(n, 1);
    rlimit rl = {5, 6}; setrlimit(RLIMIT_CPU, &rl);
    string r = "ok";
    try {
      if (!ctxHolds(t.in.p(), t.par)) throw Inconclusive{"ctx"};
      Expect e = t.in.expect(t.par, 60000);
      Lib L; t.o.apply(L.o);
      clast_stmt *root = generate(L, t.in.text);
      Monitor m(e, t.order, "");
      ClastInterp ip; bindParams(ip.env, t.in, t.par);
      ip.onUser = [&](clast_user_stmt *u, const Vec &v) { m.event(u->statement->number - 1, v); };
      ip.run(root); m.finish();
    } catch (Violation &v) { r = "V" + v.what; } catch (...) { r = "ok"; }
    write(p[1], r.data(), r.size()); _exit(0);
  }
  close(p[1]); string b; char buf[4096]; ssize_t k; while ((k = read(p[0], buf, 4096)) > 0) b.append(buf, k); close(p[0]);
  int st; waitpid(pid, &st, 0);
  if (msg) *msg = b;
  if (b == "ok") return "";
  if (b.empty()) { if (WIFSIGNALED(st)) { if (msg) *msg = fmt("signal %d", WTERMSIG(st)); if (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL) return ""; return fmt("signal %d", WTERMSIG(st)); } return "exit"; }
  if (b.find("twice") != string::npos) return "twice";
  if (b.find("not a point") != string::npos) return "extra";
  if (b.find("never executed") != string::npos) return "missing";
  if (b.find("dated") != string::npos) return "order";
  return b.substr(0, 12);
}
void reduceTrip(Inst in, Opt o, vector<Vec> pars, bool order) {
  Trip t; t.in = in; t.o = o; t.order = order;
  string cls;
  for (auto &v : pars) { t.par = v; cls = fails(t); if (!cls.empty()) break; }
  if (cls.empty()) { printf("does not fail\n"); return; }
  bool loose = getenv("LOOSE") != nullptr;
  auto bad = [&](const Trip &x) { string c = fails(x); return loose ? !c.empty() : c == cls; };
  bool ch = true;
  auto tryit = [&](const Trip &x) { if (bad(x)) { t = x; ch = true; return true; } return false; };
  while (ch) {
    ch = false;
    Problem &P = t.in.c.p;
    for (size_t s = 0; s < t.in.p().st.size() && t.in.p().st.size() > 1;) { Trip x = t; x.in.c.p.st.erase(x.in.c.p.st.begin() + s); if (x.in.corpus && x.in.c.p.nscat) x.in.c.rel.erase(x.in.c.rel.begin() + s); if (!tryit(x)) ++s; }
    for (size_t s = 0; s < t.in.p().st.size(); ++s) {
      for (size_t u = 0; u < t.in.p().st[s].u.size() && t.in.p().st[s].u.size() > 1;) { Trip x = t; auto &v = x.in.c.p.st[s].u; v.erase(v.begin() + u); if (!tryit(x)) ++u; }
      for (size_t u = 0; u < t.in.p().st[s].u.size(); ++u)
        for (size_t r = 0; r < t.in.p().st[s].u[u].rows.size();) { Trip x = t; auto &v = x.in.c.p.st[s].u[u].rows; v.erase(v.begin() + r); if (!tryit(x)) ++r; }
    }
    for (size_t r = 0; r < t.in.p().ctx.rows.size();) { Trip x = t; auto &v = x.in.c.p.ctx.rows; v.erase(v.begin() + r); if (!tryit(x)) ++r; }
    if (t.in.p().nscat) { // drop scattering altogether, or one dimension
      Trip x = t; x.in.c.p.nscat = 0; x.in.c.p.snames = false; for (auto &s : x.in.c.p.st) s.scat.clear(); x.in.c.rel.clear(); tryit(x);
      for (int k = 0; k < t.in.p().nscat && t.in.p().nscat > 1 && !t.in.corpus;) {
        Trip y = t; y.in.c.p.nscat--; y.in.c.p.snames = false; for (auto &s : y.in.c.p.st) s.scat.erase(s.scat.begin() + k);
        if (!tryit(y)) ++k;
      }
    }
    // options back to defaults
    Opt d;
#define R(f) if (t.o.f != d.f) { Trip x = t; x.o.f = d.f; tryit(x); }
    R(l) R(f) R(stop) R(strides) R(sh) R(first_unroll) R(esp) R(fsp) R(otl) R(block) R(backtrack) R(noblocks) R(noscalars) R(nosimplify) R(save_domains) R(fs)
#undef R
    // fix parameters
    for (int k = 0; k < t.in.npar(); ) {
      Trip x = t; Problem &q = x.in.c.p; I val = x.par[k];
      auto fix = [&](Poly &p, int col, bool isdim) { for (auto &r : p.rows) { r.c.back() += r.c[col] * val; r.c.erase(r.c.begin() + col); } if (isdim) p.ndim--; else p.npar--; };
      fix(q.ctx, k, true);
      for (auto &s : q.st) { for (auto &u : s.u) fix(u, u.ndim + u.nloc + k, false); for (auto &d : s.scat) { d.cst += d.par[k] * val; d.par.erase(d.par.begin() + k); } }
      for (size_t i = 0; i < x.in.c.rel.size(); ++i) fix(x.in.c.rel[i], x.in.c.rel[i].ndim + x.in.c.rel[i].nloc + q.st[i].dim + k, false);
      q.npar--; q.pnames = false; q.pn.clear(); x.par.erase(x.par.begin() + k);
      if (!tryit(x)) ++k;
    }
    // unused locals
    for (size_t s = 0; s < t.in.p().st.size(); ++s) for (size_t u = 0; u < t.in.p().st[s].u.size(); ++u)
      for (int l = 0; l < t.in.p().st[s].u[u].nloc;) {
        Trip x = t; Poly &p = x.in.c.p.st[s].u[u]; bool used = false;
        for (auto &r : p.rows) used |= r.c[p.ndim + l] != 0;
        if (used) { ++l; continue; }
        for (auto &r : p.rows) r.c.erase(r.c.begin() + p.ndim + l); p.nloc--;
        if (!tryit(x)) ++l;
      }
    // coefficients towards zero
    for (size_t s = 0; s < t.in.p().st.size(); ++s) {
      for (size_t u = 0; u < t.in.p().st[s].u.size(); ++u) for (size_t r = 0; r < t.in.p().st[s].u[u].rows.size(); ++r) for (size_t k = 0; k < t.in.p().st[s].u[u].rows[r].c.size(); ++k) {
        I v = t.in.p().st[s].u[u].rows[r].c[k]; if (!v) continue;
        { Trip x = t; x.in.c.p.st[s].u[u].rows[r].c[k] = 0; if (tryit(x)) continue; }
        if (v > 1 || v < -1) { Trip x = t; x.in.c.p.st[s].u[u].rows[r].c[k] = v / 2; if (tryit(x)) continue; x.in.c.p.st[s].u[u].rows[r].c[k] = v > 0 ? v - 1 : v + 1; tryit(x); }
      }
      for (size_t k = 0; k < t.in.p().st[s].scat.size(); ++k) {
        if (t.in.p().st[s].scat[k].cst != 0) { Trip x = t; x.in.c.p.st[s].scat[k].cst = 0; tryit(x); }
        if (t.in.p().st[s].scat[k].div != 1) { Trip x = t; x.in.c.p.st[s].scat[k].div = 1; tryit(x); }
        for (size_t j = 0; j < t.in.p().st[s].scat[k].it.size(); ++j) { I v = t.in.p().st[s].scat[k].it[j]; if (v == 0) continue; Trip x = t; x.in.c.p.st[s].scat[k].it[j] = 0; if (tryit(x)) continue; if (v != 1) { x.in.c.p.st[s].scat[k].it[j] = 1; tryit(x); } }
        for (size_t j = 0; j < t.in.p().st[s].scat[k].par.size(); ++j) { I v = t.in.p().st[s].scat[k].par[j]; if (v == 0) continue; Trip x = t; x.in.c.p.st[s].scat[k].par[j] = 0; tryit(x); }
      }
    }
    { Trip x = t; x.in.c.p.inames = x.in.c.p.snames = x.in.c.p.pnames = false; if (t.in.p().inames || t.in.p().snames || t.in.p().pnames) tryit(x); }
    (void)P;
  }
  string m; fails(t, &m); t.in.emit();
  printf("%s\n# options:%s  params %s\n# %s\n", t.in.text.c_str(), t.o.str().c_str(), vstr(t.par).c_str(), m.c_str());
  fflush(stdout);
  if (m[0] != 's') {
    Lib L; t.o.apply(L.o); clast_stmt *root = generate(L, t.in.text);
    printf("%s\n", printAst(root, L.o).c_str());
  }
}
