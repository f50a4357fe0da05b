// Building problems through the public interface, and monitors of resources.
#pragma once
#include "frame.h"
#include <isl/ctx.h>
#include <isl/set.h>
#include <isl/map.h>
#include <isl/union_map.h>
#include <isl/space.h>
#include <isl/val.h>
#include <isl/point.h>
#include <isl/constraint.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
extern "C" {
extern int verif_mem_on; extern long verif_mem_allocs, verif_mem_frees, verif_mem_fail_at, verif_mem_failed, verif_gmp_allocs, verif_gmp_frees;
long verif_mem_live(void (*f)(void *, size_t, void *, void *), void *u);
struct isl_ctx *cloog_ctx_of(CloogState *);
}

inline void setz(cloog_int_t &z, I v) { mpz_set_str(z, istr(v).c_str(), 10); }
inline CloogMatrix *rowsMatrix(const vector<Row> &rows, int cols) {
  CloogMatrix *m = cloog_matrix_alloc(rows.size(), cols + 1);
  for (size_t i = 0; i < rows.size(); ++i) {
    mpz_set_si(m->p[i][0], rows[i].ineq ? 1 : 0);
    for (int j = 0; j < cols; ++j) setz(m->p[i][j + 1], rows[i].c[j]);
  }
  return m;
}
struct StrFile { // text readable through a FILE
  FILE *f; StrFile(const string &s) { f = memfile(s); } ~StrFile() { fclose(f); }
};
inline isl_ctx *ctxOf(Lib &L) {
  CloogDomain *d = cloog_domain_universe(L.st, 0);
  isl_ctx *c = isl_set_get_ctx(isl_set_from_cloog_domain(d));
  cloog_domain_free(d);
  return c;
}
inline string joinNames(const vector<string> &v) { string r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r; }
inline vector<string> seqNames(const string &b, int n) { vector<string> r; for (int i = 0; i < n; ++i) r.push_back(b + std::to_string(i)); return r; }
inline string rowStr(const Row &r, const vector<string> &vars) {
  string s;
  for (size_t i = 0; i < vars.size(); ++i) if (r.c[i] != 0) s += (r.c[i] < 0 ? " - " : " + ") + istr(r.c[i] < 0 ? -r.c[i] : r.c[i]) + vars[i];
  I k = r.c[vars.size()];
  s += (k < 0 ? " - " : " + ") + istr(k < 0 ? -k : k);
  return "0" + s + (r.ineq ? " >= 0" : " = 0");
}
inline string polyStr(const Poly &p, const vector<string> &dims, const vector<string> &pars) { // constraints in isl notation
  vector<string> loc = seqNames("e", p.nloc), all = dims;
  all.insert(all.end(), loc.begin(), loc.end()); all.insert(all.end(), pars.begin(), pars.end());
  string s;
  for (auto &r : p.rows) s += (s.empty() ? "" : " and ") + rowStr(r, all);
  if (s.empty()) s = "0 = 0";
  return p.nloc ? "(exists (" + joinNames(loc) + " : " + s + "))" : "(" + s + ")";
}
inline string unionStr(const vector<Poly> &u, const vector<string> &dims, const vector<string> &pars) {
  string s; for (auto &p : u) s += (s.empty() ? "" : " or ") + polyStr(p, dims, pars);
  return s.empty() ? "1 = 0" : s;
}
// One statement's domain, built in one of several ways.
inline CloogDomain *buildDomain(Lib &L, const vector<Poly> &u, int npar, int way, const string &tuple = "", const vector<string> *dn = nullptr, const vector<string> *pn = nullptr) {
  bool loc = false; for (auto &p : u) loc |= p.nloc > 0;
  if (way == 0 && loc) way = 1;
  if (way == 0) {
    CloogDomain *d = nullptr;
    for (auto &p : u) {
      CloogMatrix *m = rowsMatrix(p.rows, p.ndim + npar + 1);
      CloogDomain *x = cloog_domain_from_cloog_matrix(L.st, m, npar);
      cloog_matrix_free(m);
      d = d ? cloog_domain_union(d, x) : x;
    }
    return d;
  }
  if (way == 1) {
    string t = std::to_string(u.size()) + "\n";
    for (auto &p : u) t += emitPoly(p, loc, npar);
    StrFile f(t);
    return cloog_domain_union_read(L.st, f.f, npar);
  }
  int dim = u[0].ndim;
  vector<string> dims = dn ? *dn : seqNames("x", dim), pars = pn ? *pn : seqNames("p", npar);
  string s = "[" + joinNames(pars) + "] -> { " + tuple + "[" + joinNames(dims) + "] : " + unionStr(u, dims, pars) + " }";
  return cloog_domain_from_isl_set(isl_set_read_from_str(ctxOf(L), s.c_str()));
}
inline CloogDomain *buildContext(Lib &L, const Problem &p, int way, const vector<string> *pn = nullptr) {
  if (way == 0) {
    CloogMatrix *m = rowsMatrix(p.ctx.rows, p.npar + 1);
    CloogDomain *d = cloog_domain_from_cloog_matrix(L.st, m, p.npar);
    cloog_matrix_free(m);
    return d;
  }
  if (way == 1) { StrFile f(emitPoly(p.ctx, false, 0)); return cloog_domain_read_context(L.st, f.f); }
  vector<string> pars = pn ? *pn : seqNames("p", p.npar);
  string s = "[" + joinNames(pars) + "] -> { [] : " + polyStr(p.ctx, pars, {}) + " }";
  return cloog_domain_from_isl_set(isl_set_read_from_str(ctxOf(L), s.c_str()));
}
inline string scatStr(const Problem &p, const Stmt &s, const vector<string> &dims, const vector<string> &pars, vector<string> &out) {
  string r; out = seqNames("t", p.nscat);
  for (int k = 0; k < p.nscat; ++k) {
    auto &d = s.scat[k];
    string a = istr(d.cst);
    for (int i = 0; i < s.dim; ++i) if (d.it[i] != 0) a += " + " + istr(d.it[i]) + "*" + dims[i];
    for (int i = 0; i < p.npar; ++i) if (d.par[i] != 0) a += " + " + istr(d.par[i]) + "*" + pars[i];
    r += (r.empty() ? "" : " and ") + out[k] + " = " + (d.div == 1 ? a : "floor((" + a + ")/" + istr(d.div) + ")");
  }
  return r.empty() ? "0 = 0" : r;
}
inline CloogScattering *buildScat(Lib &L, const Problem &p, const Stmt &s, CloogDomain *dom, int way, const vector<string> *pn = nullptr) {
  if (way == 0) {
    CloogMatrix *m = rowsMatrix(scatRows(p, s), p.nscat + s.dim + p.npar + 1);
    CloogScattering *r = cloog_scattering_from_cloog_matrix(L.st, m, p.nscat, p.npar);
    cloog_matrix_free(m);
    return r;
  }
  if (way == 1) {
    auto rows = scatRows(p, s);
    string t = fmt("%zu %d\n", rows.size(), p.nscat + s.dim + p.npar + 2);
    for (auto &r : rows) { t += r.ineq ? "1" : "0"; for (auto &v : r.c) t += " " + istr(v); t += "\n"; }
    StrFile f(t);
    return cloog_domain_read_scattering(dom, f.f);
  }
  vector<string> dims = seqNames("x", s.dim), pars = pn ? *pn : seqNames("p", p.npar), out;
  string c = scatStr(p, s, dims, pars, out);
  string t = "[" + joinNames(pars) + "] -> { [" + joinNames(dims) + "] -> [" + joinNames(out) + "] : " + c + " }";
  return cloog_scattering_from_isl_map(isl_map_read_from_str(ctxOf(L), t.c_str()));
}
inline void *usrOf(size_t s) { static char cell[256]; return &cell[s % 256]; }
struct Api { // what was given through the interface
  vector<string> names; vector<int> tags; vector<string> pn, in, sn; int ways = 0; string how;
  bool namesGiven = false, unionMap = false;
};
// way: -1 any mix, 3 one isl union map for all statements
inline CloogInput *buildInput(Lib &L, Rng &g, const Inst &in, Api &a, int way) {
  const Problem &p = in.p();
  a.pn = seqNames("prm", p.npar);
  for (size_t s = 0; s < p.st.size(); ++s) a.names.push_back(g.p(0.5) ? fmt("stm_%c", (char)('a' + s)) : fmt("S%zu", s + 1)), a.tags.push_back(0);
  if (way == 3) {
    a.unionMap = true; a.namesGiven = true; a.how = "union map";
    for (size_t s = 0; s < p.st.size(); ++s) a.names[s] = fmt("stm_%c", (char)('a' + s));
    string t;
    for (size_t s = 0; s < p.st.size(); ++s) {
      vector<string> dims = seqNames("x", p.st[s].dim), out;
      string c = p.nscat ? scatStr(p, p.st[s], dims, a.pn, out) : "0 = 0";
      t += (s ? "; " : "") + a.names[s] + "[" + joinNames(dims) + "] -> [" + joinNames(out) + "] : (" + c + ") and (" + unionStr(p.st[s].u, dims, a.pn) + ")";
    }
    t = "[" + joinNames(a.pn) + "] -> { " + t + " }";
    isl_union_map *m = isl_union_map_read_from_str(ctxOf(L), t.c_str());
    if (!m) inconc("isl did not read the union map");
    CloogUnionDomain *ud = cloog_union_domain_from_isl_union_map(m);
    return cloog_input_alloc(buildContext(L, p, 2, &a.pn), ud);
  }
  int cw = g.in(0, 2);
  CloogDomain *ctx = buildContext(L, p, cw, cw == 2 ? &a.pn : nullptr);
  a.how = fmt("context %d", cw);
  if (way == 4 && p.st.size() == 1 && !p.nscat) { // one isl set
    vector<string> dims = seqNames("it", p.st[0].dim);
    string s = "[" + joinNames(a.pn) + "] -> { stm_a[" + joinNames(dims) + "] : " + unionStr(p.st[0].u, dims, a.pn) + " }";
    a.names[0] = "stm_a"; a.namesGiven = true; a.unionMap = true; a.in = dims; a.how += " isl set";
    cloog_domain_free(ctx); ctx = buildContext(L, p, 2, &a.pn);
    isl_set *set = isl_set_read_from_str(ctxOf(L), s.c_str());
    if (!set) inconc("isl did not read the set");
    if (g.p(0.3)) { // dimensions without names
      for (size_t i = 0; i < dims.size(); ++i) if (g.p(0.7)) { set = isl_set_set_dim_name(set, isl_dim_set, i, nullptr); a.in[i] = fmt("i%zu", i); }
      a.how += " unnamed";
    }
    if (p.npar && g.p(0.4)) { // parameters that carry the name of a dimension, or the start of it
      a.pn[0] = dims.empty() ? "i0" : g.p(0.5) ? a.in[g.in(0, dims.size() - 1)] : g.p(0.5) ? "i0" : "it";
      if (p.npar > 1 && g.p(0.5)) a.pn[1] = a.pn[0] + "_1";
      for (int i = 0; i < p.npar; ++i) set = isl_set_set_dim_name(set, isl_dim_param, i, a.pn[i].c_str());
      cloog_domain_free(ctx); ctx = buildContext(L, p, 2, &a.pn);
      for (auto &x : a.in) for (auto &y : a.pn) if (y.compare(0, x.size(), x) == 0) { a.in.clear(); goto clash; } // renamed by the library
    clash:;
      a.how += " sharing names";
    }
    if (!dims.empty() && g.p(0.35)) { // names that the names the library makes up may run into
      static const char *pool[] = {"it", "it_1", "it_2", "it_1_1", "i0", "i1", "i0_1", "i", "x_1", "x"};
      for (size_t i = 0; i < dims.size(); ++i) if (g.p(0.8)) set = isl_set_set_dim_name(set, isl_dim_set, i, g.p(0.15) ? nullptr : pool[g.in(0, 9)]);
      if (p.npar && g.p(0.6)) {
        std::set<string> u;
        for (int i = 0; i < p.npar; ++i) { do a.pn[i] = pool[g.in(0, 9)]; while (!u.insert(a.pn[i]).second); set = isl_set_set_dim_name(set, isl_dim_param, i, a.pn[i].c_str()); }
        cloog_domain_free(ctx); ctx = buildContext(L, p, 2, &a.pn);
      }
      a.in.clear(); a.how += " colliding names";
    }
    CloogUnionDomain *ud = cloog_union_domain_from_isl_set(set);
    if (!dims.empty() && ud->name[CLOOG_ITER]) {
      std::set<string> u(a.pn.begin(), a.pn.end());
      for (size_t i = 0; i < dims.size(); ++i) if (!u.insert(ud->name[CLOOG_ITER][i]).second) viol(string("iterator name used twice or shared with a parameter: ") + ud->name[CLOOG_ITER][i]);
    }
    return cloog_input_alloc(ctx, ud);
  }
  // isl identifies parameters by name: one way for everything that has parameter names
  bool named = cw == 2 && p.npar;
  CloogUnionDomain *ud = cloog_union_domain_alloc(p.npar);
  a.namesGiven = g.p(0.7);
  for (size_t s = 0; s < p.st.size(); ++s) {
    int w = named ? 2 : p.npar ? g.in(0, 1) : g.in(0, 2), sw = named ? 2 : p.npar ? g.in(0, 1) : g.in(0, 2);
    a.how += fmt(" S%zu:%d", s + 1, w);
    CloogDomain *d = buildDomain(L, p.st[s].u, p.npar, w, "", nullptr, named ? &a.pn : nullptr);
    CloogScattering *sc = nullptr;
    if (p.nscat) { sc = buildScat(L, p, p.st[s], d, sw, named ? &a.pn : nullptr); a.how += fmt("/%d", sw); }
    ud = cloog_union_domain_add_domain(ud, a.namesGiven ? a.names[s].c_str() : nullptr, d, sc, usrOf(s));
    a.tags[s] = 1;
  }
  for (int i = 0; i < p.npar; ++i) ud = cloog_union_domain_set_name(ud, CLOOG_PARAM, i, a.pn[i].c_str());
  if (g.p(0.4) && p.maxdim()) {
    a.in = seqNames("it", p.maxdim());
    for (int i = p.maxdim() - 1; i >= 0; --i) ud = cloog_union_domain_set_name(ud, CLOOG_ITER, i, a.in[i].c_str());
    if (g.p(0.3)) ud = cloog_union_domain_set_name(ud, CLOOG_ITER, 0, a.in[0].c_str()); // again
  }
  if (g.p(0.4) && p.nscat) {
    a.sn = seqNames("tt", p.nscat);
    for (int i = 0; i < p.nscat; ++i) ud = cloog_union_domain_set_name(ud, CLOOG_SCAT, i, a.sn[i].c_str());
  }
  return cloog_input_alloc(ctx, ud);
}

// ------------------------------------------------------------ resource monitor
struct Track {
  long a0, f0, ga0, gf0;
  void start() {
    ga0 = verif_gmp_allocs; gf0 = verif_gmp_frees; a0 = verif_mem_allocs; f0 = verif_mem_frees;
    verif_mem_on = 1;
  }
  void stop() { verif_mem_on = 0; }
};
// Runs f with standard error redirected; returns what was written.
template <class F> string withStderr(F f) {
  fflush(stderr);
  int keep = dup(2), fd = syscall(SYS_memfd_create, "e", 0);
  dup2(fd, 2);
  f();
  fflush(stderr);
  dup2(keep, 2); close(keep);
  off_t n = lseek(fd, 0, SEEK_END); string s(n > 65536 ? 65536 : n, 0);
  pread(fd, &s[0], s.size(), 0); close(fd);
  return s;
}

inline vector<Vec> keepable(Case &c, const Inst &in, int want, long budget, long *total) {
  auto pars = paramsFor(c, in, want);
  if (pars.empty()) inconc("no parameter value satisfies the context");
  vector<Vec> keep; long t = 0;
  for (auto &v : pars) { try { t += in.expect(v, budget).total; keep.push_back(v); } catch (TooBig &) {} }
  if (keep.empty()) inconc("too many points to enumerate");
  if (total) *total = t;
  return keep;
}
// Executes an AST whose statements are recognised by fn, under the monitor.
inline void runMon(Case &c, clast_stmt *root, const Inst &in, const Vec &par, const vector<string> &pn, const std::function<int(clast_user_stmt *)> &fn, const string &where) {
  Expect e = in.expect(par, 60000);
  Monitor m(e, true, where + " " + parStr(in, par));
  ClastInterp ip;
  for (int i = 0; i < in.npar(); ++i) ip.env[pn[i]] = par[i];
  ip.onUser = [&](clast_user_stmt *u, const Vec &v) { m.event(fn(u), v); };
  ip.run(root);
  m.finish();
  c.st["instances"] += m.seen; c.st["ordered_pairs"] += m.ordered; c.st["executions"]++;
}
inline vector<string> pnames(const Inst &in) { vector<string> r; for (int i = 0; i < in.npar(); ++i) r.push_back(in.pname(i)); return r; }
inline int byNumber(clast_user_stmt *u) { return u->statement->number - 1; }

