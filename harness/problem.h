// Problems given to the code generator, their textual form, and the reference
// model: point sets and dates obtained by plain enumeration of the raw
// constraint rows (no polyhedral library and no code of the tree under test).
#pragma once
#include "base.h"

struct Row { bool ineq; Vec c; }; // c: dims (out), locals, params, constant
struct Poly {                     // conjunction over ndim + nloc + npar + 1
  int ndim = 0, nloc = 0, npar = 0;
  vector<Row> rows;
};
struct ScatDim { Vec it, par; I cst = 0; I div = 1; };
struct Stmt {
  int dim = 0;
  vector<Poly> u;
  vector<ScatDim> scat;
};
struct Problem {
  int npar = 0;
  Poly ctx; // ndim = npar here, npar = 0
  vector<Stmt> st;
  int nscat = 0;
  bool pnames = false, inames = false, snames = false;
  vector<string> pn, in, sn;
  int maxdim() const { int m = 0; for (auto &s : st) m = std::max(m, s.dim); return m; }
};

struct TooBig {};

// Enumerate the integral points of a polyhedron for given parameter values.
struct Enumerator {
  const Poly &p; const Vec &par; long budget;
  vector<Vec> r; // rows with the parameters folded into the constant
  vector<bool> ineq;
  Vec x; bool unbounded = false;
  Enumerator(const Poly &p, const Vec &par, long budget) : p(p), par(par), budget(budget) {
    int n = p.ndim + p.nloc;
    for (auto &row : p.rows) {
      Vec v(row.c.begin(), row.c.begin() + n);
      I k = row.c[n + p.npar];
      for (int i = 0; i < p.npar; ++i) k = addx(k, mulx(row.c[n + i], par[i]));
      v.push_back(k);
      r.push_back(v); ineq.push_back(row.ineq);
    }
    x.assign(n, 0);
  }
  bool rec(int k, const std::function<void(const Vec &)> &f) {
    int n = p.ndim + p.nloc;
    if (--budget < 0) throw TooBig();
    // constraints whose last involved dim is k-1 are checked on entry of level k
    if (k == n) {
      for (size_t i = 0; i < r.size(); ++i) {
        I v = r[i][n];
        for (int j = 0; j < n; ++j) v = addx(v, mulx(r[i][j], x[j]));
        if (ineq[i] ? v < 0 : v != 0) return false;
      }
      Vec pt(x.begin(), x.begin() + p.ndim);
      f(pt);
      return true;
    }
    bool hl = false, hu = false; I lo = 0, hi = 0;
    for (size_t i = 0; i < r.size(); ++i) {
      I a = r[i][k];
      if (a == 0) continue;
      bool later = false;
      for (int j = k + 1; j < n; ++j) if (r[i][j] != 0) { later = true; break; }
      if (later) continue;
      I v = r[i][n];
      for (int j = 0; j < k; ++j) v = addx(v, mulx(r[i][j], x[j]));
      // a*x + v >= 0 (or == 0)
      if (a > 0 || !ineq[i]) {
        I b = a > 0 ? cdiv(-v, a) : cdiv(v, -a);
        if (!hl || b > lo) lo = b, hl = true;
      }
      if (a < 0 || !ineq[i]) {
        I b = a < 0 ? fdiv(v, -a) : fdiv(-v, a);
        if (!hu || b < hi) hi = b, hu = true;
      }
    }
    if (!hl || !hu) { unbounded = true; throw TooBig(); }
    bool any = false;
    for (I v = lo; v <= hi; ++v) {
      x[k] = v;
      bool got = rec(k + 1, f);
      any |= got;
      if (got && k >= p.ndim) break; // one witness is enough for local variables
    }
    return any;
  }
};

inline bool inPoly(const Poly &p, const Vec &pt, const Vec &par) {
  // membership; locals searched
  Poly q = p;
  int n = p.ndim + p.nloc;
  for (int i = 0; i < p.ndim; ++i) {
    Row r; r.ineq = false; r.c.assign(n + p.npar + 1, 0);
    r.c[i] = 1; r.c[n + p.npar] = -pt[i];
    q.rows.push_back(r);
  }
  Enumerator e(q, par, 100000);
  return e.rec(0, [](const Vec &) {});
}
inline bool ctxHolds(const Problem &p, const Vec &par) { return inPoly(p.ctx, par, Vec()); }

inline Vec scatOf(const Stmt &s, const Vec &pt, const Vec &par) {
  Vec r;
  for (auto &d : s.scat) {
    I v = d.cst;
    for (size_t i = 0; i < d.it.size(); ++i) v = addx(v, mulx(d.it[i], pt[i]));
    for (size_t i = 0; i < d.par.size(); ++i) v = addx(v, mulx(d.par[i], par[i]));
    r.push_back(fdiv(v, d.div));
  }
  return r;
}

// Expected instances for one parameter valuation.
struct Expect {
  struct Ent { Vec date; bool seen = false; };
  vector<std::map<Vec, Ent>> st;
  long total = 0;
  bool dated = false;
};
inline Expect expectOf(const Problem &p, const Vec &par, long budget = 200000) {
  Expect e;
  e.st.resize(p.st.size());
  e.dated = p.nscat > 0;
  for (size_t s = 0; s < p.st.size(); ++s) {
    for (auto &u : p.st[s].u) {
      Enumerator en(u, par, budget);
      en.rec(0, [&](const Vec &pt) {
        auto &x = e.st[s];
        if (x.count(pt)) return;
        Expect::Ent ent;
        if (e.dated) ent.date = scatOf(p.st[s], pt, par);
        x[pt] = ent;
        if (++e.total > budget / 4) throw TooBig();
      });
    }
  }
  return e;
}

// ---------------------------------------------------------------- emission
inline string emitPoly(const Poly &p, bool ext, int nparCols) {
  std::ostringstream o;
  int n = p.ndim + p.nloc;
  if (p.nloc || ext)
    o << p.rows.size() << " " << n + nparCols + 2 << " " << p.ndim << " 0 " << p.nloc << " " << nparCols << "\n";
  else
    o << p.rows.size() << " " << n + nparCols + 2 << "\n";
  for (auto &r : p.rows) {
    o << (r.ineq ? 1 : 0);
    for (auto &v : r.c) o << " " << istr(v);
    o << "\n";
  }
  return o.str();
}
// scattering rows over (scat, iters, params, 1)
inline vector<Row> scatRows(const Problem &p, const Stmt &s) {
  vector<Row> rows;
  int n = p.nscat + s.dim + p.npar + 1;
  for (int k = 0; k < p.nscat; ++k) {
    auto &d = s.scat[k];
    Vec aff(n, 0);
    for (int i = 0; i < s.dim; ++i) aff[p.nscat + i] = d.it[i];
    for (int i = 0; i < p.npar; ++i) aff[p.nscat + s.dim + i] = d.par[i];
    aff[n - 1] = d.cst;
    if (d.div == 1) {
      Row r; r.ineq = false; r.c = aff;
      for (auto &v : r.c) v = -v;
      r.c[k] = 1;
      rows.push_back(r);
    } else {
      Row a; a.ineq = true; a.c = aff; a.c[k] = -d.div;
      Row b; b.ineq = true; b.c = aff;
      for (auto &v : b.c) v = -v;
      b.c[k] = d.div; b.c[n - 1] += d.div - 1;
      rows.push_back(a); rows.push_back(b);
    }
  }
  return rows;
}
inline string emitCloog(const Problem &p, char lang = 'c') {
  std::ostringstream o;
  o << lang << "\n\n";
  o << emitPoly(p.ctx, false, 0) << "\n";
  o << (p.pnames ? 1 : 0) << "\n";
  if (p.pnames) { for (int i = 0; i < p.npar; ++i) o << p.pn[i] << " "; o << "\n"; }
  o << "\n" << p.st.size() << "\n\n";
  for (auto &s : p.st) {
    o << s.u.size() << "\n";
    bool ext = false;
    for (auto &u : s.u) if (u.nloc) ext = true;
    for (auto &u : s.u) o << emitPoly(u, ext, p.npar);
    o << "0 0 0\n\n";
  }
  o << (p.inames ? 1 : 0) << "\n";
  if (p.inames) { for (int i = 0; i < p.maxdim(); ++i) o << p.in[i] << " "; o << "\n"; }
  o << "\n";
  if (p.nscat) {
    o << p.st.size() << "\n";
    for (auto &s : p.st) {
      auto rows = scatRows(p, s);
      o << rows.size() << " " << p.nscat + s.dim + p.npar + 2 << "\n";
      for (auto &r : rows) {
        o << (r.ineq ? 1 : 0);
        for (auto &v : r.c) o << " " << istr(v);
        o << "\n";
      }
      o << "\n";
    }
    o << (p.snames ? 1 : 0) << "\n";
    if (p.snames) { for (int i = 0; i < p.nscat; ++i) o << p.sn[i] << " "; o << "\n"; }
  } else o << "0\n";
  return o.str();
}

// ---------------------------------------------------------------- generation
struct GenCfg {
  int maxStmt = 4, maxDim = 3, maxPar = 2, maxDisj = 3;
  double pUnion = 0.25, pEq = 0.3, pScat = 0.6, pLocal = 0.12, pExtra = 0.5, pFloor = 0.12;
  double pCtx = 0.6, pNames = 0.4;
  int lo = -5, hi = 8;       // constants in bounds
  int coef = 3;
  bool dupDomains = true;
};

inline Row mkrow(const Poly &p, bool ineq) {
  Row r; r.ineq = ineq; r.c.assign(p.ndim + p.nloc + p.npar + 1, 0); return r;
}

inline Poly genPoly(Rng &g, const GenCfg &c, int dim, int npar) {
  Poly p; p.ndim = dim; p.npar = npar; p.nloc = 0;
  if (dim && g.p(c.pLocal)) p.nloc = g.in(1, g.p(0.8) ? 1 : 2);
  int n = dim + p.nloc;
  int K = n + npar;
  vector<bool> byEq(dim, false);
  // a dimension may be tied to outer ones by an equality
  for (int k = 0; k < dim; ++k) {
    if (g.p(c.pEq * 0.5)) {
      Row r = mkrow(p, false);
      I a = g.p(0.5) ? 1 : g.in(1, 4);
      r.c[k] = g.p(0.5) ? a : -a;
      for (int j = 0; j < k; ++j) if (g.p(0.5)) r.c[j] = g.in(-c.coef, c.coef);
      for (int j = 0; j < npar; ++j) if (g.p(0.35)) r.c[n + j] = g.in(-2, 2);
      r.c[K] = g.in(c.lo, c.hi);
      p.rows.push_back(r); byEq[k] = true;
      if (g.p(0.6)) continue; // otherwise also bounded below
    }
    for (int side = 0; side < 2; ++side) { // 0 lower, 1 upper
      int nb = g.p(0.2) ? 2 : 1;
      for (int t = 0; t < nb; ++t) {
        Row r = mkrow(p, true);
        I a = g.p(0.8) ? 1 : g.in(2, 4);
        r.c[k] = side ? -a : a;
        int kind = g.in(0, 9);
        I cst = side ? g.in(0, c.hi) : -g.in(c.lo < 0 ? c.lo : 0, 2);
        if (!side && g.p(0.3)) cst = -g.in(-2, 3);
        if (kind < 4 || (kind < 8 && !npar && !k)) {
          r.c[K] = cst * a;
        } else if ((kind < 7 && npar) || !k) {
          if (npar) r.c[n + g.in(0, npar - 1)] = g.p(0.85) ? 1 : g.in(-2, 2);
          r.c[K] = side ? g.in(-2, 4) : g.in(-1, 3);
          if (!side && g.p(0.8)) { for (int j = 0; j < npar; ++j) r.c[n + j] = 0; }
        } else {
          int j = g.in(0, k - 1);
          r.c[j] = g.p(0.7) ? (side ? 1 : -1) : g.in(-c.coef, c.coef);
          if (npar && g.p(0.25)) r.c[n + g.in(0, npar - 1)] = g.p(0.7) ? 1 : -1;
          r.c[K] = g.in(-3, 6);
        }
        p.rows.push_back(r);
      }
    }
  }
  // locals: modulo-like constraints
  for (int l = 0; l < p.nloc; ++l) {
    int m = g.in(2, 5);
    Row r = mkrow(p, false);
    bool range = g.p(0.35);
    Vec aff(K + 1, 0);
    aff[g.in(0, dim - 1)] = g.p(0.7) ? 1 : g.in(-3, 3);
    if (g.p(0.3)) aff[g.in(0, dim - 1)] += g.in(-2, 2);
    if (npar && g.p(0.3)) aff[n + g.in(0, npar - 1)] = g.in(-2, 2);
    aff[K] = g.in(-4, 4);
    if (!range) {
      r.c = aff; r.c[dim + l] = -m;
      p.rows.push_back(r);
    } else { // 0 <= aff - m*e <= w
      int w = g.in(0, m - 1);
      r.ineq = true; r.c = aff; r.c[dim + l] = -m;
      p.rows.push_back(r);
      for (auto &v : r.c) v = -v;
      r.c[K] += w;
      p.rows.push_back(r);
    }
  }
  // extra random constraints
  while (dim && g.p(c.pExtra * 0.5)) {
    bool eq = g.p(c.pEq * 0.5);
    Row r = mkrow(p, !eq);
    for (int j = 0; j < dim; ++j) if (g.p(0.6)) r.c[j] = g.in(-c.coef, c.coef);
    for (int j = 0; j < npar; ++j) if (g.p(0.3)) r.c[n + j] = g.in(-2, 2);
    r.c[K] = eq ? g.in(-3, 3) : g.in(-2, 10);
    p.rows.push_back(r);
  }
  // constraints on parameters only
  if (npar && g.p(0.12)) {
    Row r = mkrow(p, !g.p(0.2));
    for (int j = 0; j < npar; ++j) if (g.p(0.7)) r.c[n + j] = g.in(-2, 2);
    r.c[K] = g.in(-3, 6);
    p.rows.push_back(r);
  }
  // order of the rows must not matter
  for (size_t i = p.rows.size(); i > 1; --i) std::swap(p.rows[i - 1], p.rows[g.in(0, i - 1)]);
  return p;
}

inline Problem genProblem(Rng &g, const GenCfg &c) {
  Problem p;
  p.npar = g.in(0, c.maxPar);
  p.ctx.ndim = p.npar; p.ctx.npar = 0;
  if (p.npar && g.p(c.pCtx)) {
    int nc = g.in(1, 1 + p.npar);
    for (int t = 0; t < nc; ++t) {
      Row r = mkrow(p.ctx, !g.p(0.06));
      int j = g.in(0, p.npar - 1);
      int kind = g.in(0, 5);
      if (kind < 3) { r.ineq = true; r.c[j] = 1; r.c[p.npar] = g.in(-3, 3); }
      else if (kind == 3) { r.ineq = true; r.c[j] = -1; r.c[p.npar] = g.in(3, 9); }
      else { for (int k = 0; k < p.npar; ++k) r.c[k] = g.in(-2, 2); r.c[p.npar] = g.in(-1, 4); }
      p.ctx.rows.push_back(r);
    }
  } else if (g.p(0.5)) {
    p.ctx.rows.push_back(mkrow(p.ctx, true)); // 0 >= 0
  }
  int ns = g.p(0.35) ? 1 : g.in(1, c.maxStmt);
  bool scat = g.p(c.pScat);
  for (int s = 0; s < ns; ++s) {
    Stmt st;
    if (s && c.dupDomains && g.p(0.25)) {
      st = p.st[g.in(0, s - 1)];       // same domain: statement blocks
      st.scat.clear();
    } else {
      st.dim = g.p(0.06) ? 0 : g.in(1, c.maxDim);
      int nd = g.p(c.pUnion) ? g.in(2, c.maxDisj) : 1;
      bool loc = false;
      for (int i = 0; i < nd; ++i) {
        Poly q = genPoly(g, c, st.dim, p.npar);
        st.u.push_back(q);
        loc |= q.nloc > 0;
      }
    }
    p.st.push_back(st);
  }
  int md = p.maxdim();
  if (scat) {
    int style = g.in(0, 4);
    int extra = g.in(0, 1);
    if (style <= 1) p.nscat = std::min(2 * md + 1, 7);       // 2d+1
    else p.nscat = std::max(1, std::min(md + extra, 5));
    if (style == 4) p.nscat = g.in(1, 2);
    vector<vector<ScatDim>> hist;
    for (auto &s : p.st) {
      if (!hist.empty() && g.p(0.25)) {
        // copy of a previous scattering (same number of iterators), maybe last constant bumped
        auto h = g.pick(hist);
        if (h.empty() || (int)h[0].it.size() == s.dim) {
          s.scat = h;
          if (g.p(0.5) && !h.empty()) s.scat.back().cst += g.in(-1, 1);
          hist.push_back(s.scat);
          continue;
        }
      }
      for (int k = 0; k < p.nscat; ++k) {
        ScatDim d; d.it.assign(s.dim, 0); d.par.assign(p.npar, 0);
        if (style <= 1) {
          if (k % 2 == 0) d.cst = g.in(0, 2);
          else {
            int j = k / 2;
            if (j < s.dim) { d.it[j] = g.p(0.9) ? 1 : -1; if (g.p(0.3)) d.cst = g.in(-2, 2); if (g.p(0.15) && s.dim > 1) d.it[g.in(0, s.dim - 1)] += 1; }
          }
        } else {
          if (g.p(0.25)) d.cst = g.in(-2, 3);
          else {
            for (int j = 0; j < s.dim; ++j) if (g.p(0.5)) d.it[j] = g.in(-2, 2);
            if (g.p(0.15)) for (int j = 0; j < s.dim; ++j) d.it[j] *= g.in(1, 3);
            if (g.p(0.15)) for (int j = 0; j < p.npar; ++j) d.par[j] = g.in(-1, 1);
            if (g.p(0.4)) d.cst = g.in(-3, 3);
            if (g.p(c.pFloor)) d.div = g.in(2, 5);
          }
        }
        s.scat.push_back(d);
      }
      hist.push_back(s.scat);
    }
  }
  static const char *PN[] = {"N", "par_b", "Q2", "tsize"};
  static const char *IN[] = {"x", "yy", "z_1", "it4", "v", "w"};
  static const char *SN[] = {"t0", "t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8"};
  // some with names that start like others
  static const char *SN2[] = {"xx", "x1", "yy2", "z_1z", "it42", "v1", "tsize1", "N1", "t_8"};
  Rng h = g; bool alike = h.p(0.3);
  p.pnames = g.p(c.pNames); p.inames = g.p(c.pNames); p.snames = g.p(c.pNames);
  for (int i = 0; i < p.npar; ++i) p.pn.push_back(PN[i]);
  for (int i = 0; i < md; ++i) p.in.push_back(IN[i]);
  for (int i = 0; i < p.nscat; ++i) p.sn.push_back(alike ? SN2[i] : SN[i]);
  if (!p.npar) p.pnames = false;
  if (!md) p.inames = false;
  if (!p.nscat) p.snames = false;
  return p;
}

inline vector<Vec> pickParams(Rng &g, const Problem &p, int want) {
  vector<Vec> r;
  if (!p.npar) { if (ctxHolds(p, Vec())) r.push_back(Vec()); return r; }
  std::set<Vec> seen;
  for (int t = 0; t < want * 12 && (int)r.size() < want; ++t) {
    Vec v;
    for (int i = 0; i < p.npar; ++i) v.push_back(g.p(0.75) ? g.in(-3, 8) : g.in(-9, 14));
    if (seen.count(v)) continue;
    seen.insert(v);
    if (ctxHolds(p, v)) r.push_back(v);
  }
  return r;
}
