// Reader of .cloog files that shares nothing with the tree under test, and
// mutations of the problems read.
#pragma once
#include "problem.h"
#include <fstream>

struct CorpusErr { string what; };
struct CorpusStmtScat { Poly rel; };  // ndim = scat dims, npar = iterators + parameters

struct CorpusProblem {
  char lang = 'c';
  Problem p;                 // p.st[i].scat unused for corpus problems
  vector<Poly> rel;          // scattering relations, one per statement (or none)
  string origin;
};

struct CorpusReader {
  vector<string> lines; size_t i = 0;
  string next() { if (i >= lines.size()) throw CorpusErr{"eof"}; return lines[i++]; }
  static vector<string> words(const string &s) { std::istringstream is(s); vector<string> v; string w; while (is >> w) v.push_back(w); return v; }
  static bool numeric(const vector<string> &w) {
    for (auto &x : w) { size_t k = (x[0] == '-' || x[0] == '+') ? 1 : 0; if (k == x.size()) return false; for (; k < x.size(); ++k) if (!isdigit((unsigned char)x[k])) return false; }
    return !w.empty();
  }
  static I num(const string &x) { I r = 0; size_t k = 0; bool neg = false; if (x[0] == '-') neg = true, k = 1; else if (x[0] == '+') k = 1; for (; k < x.size(); ++k) r = r * 10 + (x[k] - '0'); return neg ? -r : r; }
  // reads header (already split) + rows; npar: trailing columns that are parameters in the short format
  Poly matrix(const vector<string> &h, int npar) {
    if (!numeric(h) || (h.size() != 2 && h.size() != 6)) throw CorpusErr{"matrix header"};
    Poly p; long r = (long)num(h[0]), c = (long)num(h[1]);
    if (h.size() == 6) { p.ndim = (int)(num(h[2]) + num(h[3])); p.nloc = (int)num(h[4]); p.npar = (int)num(h[5]); if (p.npar != npar) throw CorpusErr{"npar"}; }
    else { p.npar = npar; p.ndim = (int)c - 2 - npar; if (p.ndim < 0) throw CorpusErr{"columns"}; }
    if (p.ndim + p.nloc + p.npar + 2 != c) throw CorpusErr{"columns"};
    for (long k = 0; k < r; ++k) {
      vector<string> w;
      while ((long)w.size() < c) { auto x = words(next()); w.insert(w.end(), x.begin(), x.end()); }
      if ((long)w.size() != c || !numeric(w)) throw CorpusErr{"row"};
      Row row; row.ineq = num(w[0]) != 0;
      for (long j = 1; j < c; ++j) row.c.push_back(num(w[j]));
      p.rows.push_back(row);
    }
    return p;
  }
  static CorpusProblem read(const string &path) {
    CorpusReader R; CorpusProblem C;
    std::ifstream f(path);
    string l;
    while (std::getline(f, l)) {
      size_t h = l.find('#');
      if (h != string::npos) l.resize(h);
      if (l.find_first_not_of(" \t\r\n") == string::npos) continue;
      R.lines.push_back(l);
    }
    C.origin = path;
    auto lang = words(R.next());
    if (lang.empty()) throw CorpusErr{"lang"};
    C.lang = lang[0][0];
    if (C.lang != 'c' && C.lang != 'f') throw CorpusErr{"lang"};
    auto h = words(R.next());
    if (h.size() == 1) { if (h[0] != "1") throw CorpusErr{"ctx union"}; h = words(R.next()); }
    if (!numeric(h)) throw CorpusErr{"ctx"};
    if (h.size() == 2) C.p.ctx = R.matrix(h, 0);
    else {
      // parameters may be given as set dims or as parameters
      int np = (int)num(h[5]);
      Poly q = R.matrix(h, np);
      if (np) { if (q.ndim) throw CorpusErr{"ctx dims"}; // move params to dims (before locals)
        for (auto &r : q.rows) { Vec c(r.c.begin() + q.nloc, r.c.begin() + q.nloc + np); c.insert(c.end(), r.c.begin(), r.c.begin() + q.nloc); c.push_back(r.c.back()); r.c = c; }
        q.ndim = np; q.npar = 0; }
      C.p.ctx = q;
    }
    C.p.npar = C.p.ctx.ndim;
    auto flag = words(R.next());
    if (flag.size() != 1) throw CorpusErr{"flag"};
    if (flag[0] == "1") { C.p.pnames = true; if (C.p.npar) { auto w = words(R.next()); if ((int)w.size() < C.p.npar) throw CorpusErr{"pnames"}; w.resize(C.p.npar); C.p.pn = w; } else { if (R.i < R.lines.size() && !numeric(words(R.lines[R.i]))) R.i++; C.p.pnames = false; } }
    auto n = words(R.next());
    if (n.size() != 1 || !numeric(n)) throw CorpusErr{"nstmt"};
    int ns = (int)num(n[0]);
    for (int s = 0; s < ns; ++s) {
      auto u = words(R.next());
      Stmt st;
      long nu = 1;
      vector<string> hh;
      if (u.size() == 1) { nu = (long)num(u[0]); }
      else { hh = u; }
      for (long k = 0; k < nu; ++k) {
        if (hh.empty()) hh = words(R.next());
        st.u.push_back(R.matrix(hh, C.p.npar));
        hh.clear();
      }
      if (st.u.empty()) throw CorpusErr{"empty union"};
      st.dim = st.u[0].ndim;
      for (auto &q : st.u) if (q.ndim != st.dim) throw CorpusErr{"dims differ"};
      auto z = words(R.next());
      if (z.size() != 3) throw CorpusErr{"0 0 0"};
      C.p.st.push_back(st);
    }
    flag = words(R.next());
    if (flag.size() != 1) throw CorpusErr{"flag"};
    if (flag[0] == "1") { C.p.inames = true; int md = C.p.maxdim(); if (!md) { C.p.inames = false; if (R.i < R.lines.size() && !numeric(words(R.lines[R.i]))) R.i++; } else { auto w = words(R.next()); if ((int)w.size() < md) throw CorpusErr{"inames"}; w.resize(md); C.p.in = w; } }
    if (R.i >= R.lines.size()) return C;
    n = words(R.next());
    if (n.size() != 1 || !numeric(n)) throw CorpusErr{"nscat"};
    long nsc = (long)num(n[0]);
    if (nsc) {
      if (nsc != ns) throw CorpusErr{"scat count"};
      for (int s = 0; s < ns; ++s) {
        auto hh = words(R.next());
        if (hh.size() == 1) { if (hh[0] != "1") throw CorpusErr{"scat union"}; hh = words(R.next()); }
        Poly q = R.matrix(hh, C.p.npar);
        int nscat = q.ndim - C.p.st[s].dim;
        if (hh.size() == 6 && num(hh[3]) != C.p.st[s].dim) throw CorpusErr{"scat in"};
        if (nscat < 1) throw CorpusErr{"scat dims"};
        if (s == 0) C.p.nscat = nscat; else if (C.p.nscat != nscat) throw CorpusErr{"scat dims differ"};
        Poly rel; rel.ndim = nscat; rel.nloc = q.nloc; rel.npar = C.p.st[s].dim + C.p.npar;
        for (auto &r : q.rows) {
          Row x; x.ineq = r.ineq;
          x.c.assign(r.c.begin(), r.c.begin() + nscat);
          x.c.insert(x.c.end(), r.c.begin() + q.ndim, r.c.begin() + q.ndim + q.nloc);
          x.c.insert(x.c.end(), r.c.begin() + nscat, r.c.begin() + q.ndim);
          x.c.insert(x.c.end(), r.c.begin() + q.ndim + q.nloc, r.c.end());
          rel.rows.push_back(x);
        }
        C.rel.push_back(rel);
      }
      if (R.i < R.lines.size()) {
        flag = words(R.next());
        if (flag.size() == 1 && flag[0] == "1" && R.i < R.lines.size()) { C.p.snames = true; auto w = words(R.next()); if ((int)w.size() < C.p.nscat) throw CorpusErr{"snames"}; w.resize(C.p.nscat); C.p.sn = w; }
      }
    }
    return C;
  }
};

inline string emitCorpus(const CorpusProblem &c) {
  const Problem &p = c.p;
  Problem q = p; q.nscat = 0;
  string base = emitCloog(q, c.lang);
  if (!p.nscat) return base;
  // replace the final "0\n" (no scattering) by the relations
  base.resize(base.size() - 2);
  std::ostringstream o; o << base << p.st.size() << "\n";
  for (size_t s = 0; s < p.st.size(); ++s) {
    const Poly &r = c.rel[s]; int dim = p.st[s].dim, ns = r.ndim;
    if (r.nloc) o << r.rows.size() << " " << ns + dim + r.nloc + p.npar + 2 << " " << ns << " " << dim << " " << r.nloc << " " << p.npar << "\n";
    else o << r.rows.size() << " " << ns + dim + p.npar + 2 << "\n";
    for (auto &x : r.rows) {
      o << (x.ineq ? 1 : 0);
      for (int i = 0; i < ns; ++i) o << " " << istr(x.c[i]);
      for (int i = 0; i < dim; ++i) o << " " << istr(x.c[ns + r.nloc + i]);
      for (int i = 0; i < r.nloc; ++i) o << " " << istr(x.c[ns + i]);
      for (int i = 0; i <= p.npar; ++i) o << " " << istr(x.c[ns + r.nloc + dim + i]);
      o << "\n";
    }
  }
  o << (p.snames ? 1 : 0) << "\n";
  if (p.snames) { for (auto &n : p.sn) o << n << " "; o << "\n"; }
  return o.str();
}

inline Vec dateOf(const CorpusProblem &c, size_t s, const Vec &pt, const Vec &par) {
  Vec v = pt; v.insert(v.end(), par.begin(), par.end());
  Vec out; int n = 0;
  Enumerator e(c.rel[s], v, 20000);
  e.rec(0, [&](const Vec &d) { if (!n++) out = d; });
  if (n != 1) throw Inconclusive{"date not unique"};
  return out;
}

inline Expect expectCorpus(const CorpusProblem &c, const Vec &par, long budget) {
  Problem q = c.p; q.nscat = 0;
  Expect e = expectOf(q, par, budget);
  if (c.p.nscat) {
    e.dated = true;
    for (size_t s = 0; s < e.st.size(); ++s) for (auto &x : e.st[s]) x.second.date = dateOf(c, s, x.first, par);
  }
  return e;
}

// Small semantic mutations of a corpus problem.
inline void mutate(Rng &g, CorpusProblem &c) {
  int n = g.in(1, 4);
  for (int t = 0; t < n; ++t) {
    int k = g.in(0, 9);
    if (c.p.st.empty()) return;
    size_t s = g.in(0, c.p.st.size() - 1);
    Poly *q = &c.p.st[s].u[g.in(0, c.p.st[s].u.size() - 1)];
    if (k <= 3 && !q->rows.empty()) { auto &r = g.pick(q->rows); const_cast<Row &>(r).c.back() += g.in(-3, 3); }
    else if (k == 4 && !q->rows.empty()) { auto &r = const_cast<Row &>(g.pick(q->rows)); r.c[g.in(0, r.c.size() - 1)] += g.p(0.5) ? 1 : -1; }
    else if (k == 5) { // additional half-space / equality
      Row r; r.ineq = g.p(0.7); r.c.assign(q->ndim + q->nloc + q->npar + 1, 0);
      for (int j = 0; j < q->ndim; ++j) if (g.p(0.5)) r.c[j] = g.in(-2, 2);
      r.c.back() = g.in(-2, 6); q->rows.push_back(r);
    } else if (k == 6 && q->ndim) { // modulo constraint through a local
      Poly x = *q; x.nloc++;
      int pos = x.ndim + x.nloc - 1;
      for (auto &r : x.rows) r.c.insert(r.c.begin() + pos, 0);
      Row r; r.ineq = false; r.c.assign(x.ndim + x.nloc + x.npar + 1, 0);
      r.c[g.in(0, x.ndim - 1)] = 1; r.c[pos] = -g.in(2, 4); r.c.back() = g.in(-2, 2);
      x.rows.push_back(r); *q = x;
    } else if (k == 7 && c.p.st.size() < 6) { // duplicate a statement
      c.p.st.push_back(c.p.st[s]);
      if (c.p.nscat) { c.rel.push_back(c.rel[s]); Poly &r = c.rel.back(); if (!r.rows.empty()) const_cast<Row &>(g.pick(r.rows)).c.back() += g.in(-1, 1); }
    } else if (k == 8 && c.p.nscat) { Poly &r = c.rel[s]; if (!r.rows.empty()) const_cast<Row &>(g.pick(r.rows)).c.back() += g.in(-2, 2); }
    else if (k == 9 && c.p.st[s].u.size() < 3) { c.p.st[s].u.push_back(*q); Poly &r = c.p.st[s].u.back(); if (!r.rows.empty()) const_cast<Row &>(g.pick(r.rows)).c.back() += g.in(-3, 3); }
  }
}
