// The operations on domains: results against plain enumeration of the raw rows.
#include "api.h"
#include <isl/aff.h>
extern "C" isl_constraint *cloog_constraint_to_isl(CloogConstraint *);

typedef std::set<Vec> Pts;
static const int LO = -6, HI = 8;
struct Dom { vector<Poly> u; bool loc = false; string txt; };
static vector<Vec> gpars;       // the parameter values looked at
static string pv(size_t k) { return gpars[k].empty() ? string("") : " for parameters " + vstr(gpars[k]); }
static Pts ref(const Dom &d, size_t k) {
  Pts r;
  for (auto &p : d.u) { Enumerator e(p, gpars[k], 60000); e.rec(0, [&](const Vec &v) { r.insert(v); }); }
  return r;
}
struct PtCtx { Pts *r; int dim; long n; };
static isl_stat onPoint(isl_point *p, void *u) {
  PtCtx *c = (PtCtx *)u; Vec v;
  for (int i = 0; i < c->dim; ++i) { isl_val *x = isl_point_get_coordinate_val(p, isl_dim_set, i); v.push_back(isl_val_get_num_si(x)); isl_val_free(x); }
  isl_point_free(p);
  c->r->insert(v);
  return ++c->n > 20000 ? isl_stat_error : isl_stat_ok;
}
static Pts ptsOf(isl_set *s, size_t k, int lo = LO, int hi = HI) { // takes s
  int np = isl_set_dim(s, isl_dim_param), d = isl_set_dim(s, isl_dim_set);
  if (np != (int)gpars[k].size() && np) viol(fmt("the result has %d parameters instead of %zu", np, gpars[k].size()));
  for (int i = 0; i < np; ++i) s = isl_set_fix_si(s, isl_dim_param, i, (int)gpars[k][i]);
  for (int i = 0; i < d; ++i) { s = isl_set_lower_bound_si(s, isl_dim_set, i, lo); s = isl_set_upper_bound_si(s, isl_dim_set, i, hi); }
  s = isl_set_project_out(s, isl_dim_param, 0, np);
  s = isl_set_make_disjoint(s);
  Pts r; PtCtx c{&r, d, 0};
  if (isl_set_foreach_point(s, onPoint, &c) < 0) { isl_set_free(s); throw TooBig(); }
  isl_set_free(s);
  return r;
}
static Pts got(CloogDomain *d, size_t k, int lo = LO, int hi = HI) { return ptsOf(isl_set_copy(isl_set_from_cloog_domain(d)), k, lo, hi); }
static string diff(const Pts &want, const Pts &have) {
  for (auto &v : have) if (!want.count(v)) return "has the extra point " + vstr(v);
  for (auto &v : want) if (!have.count(v)) return "lacks the point " + vstr(v);
  return "";
}
static void same(const string &what, const Pts &want, const Pts &have, size_t k) { string s = diff(want, have); if (!s.empty()) viol(what + " " + s + pv(k)); }
static void superset(const string &what, const Pts &want, const Pts &have, size_t k) { for (auto &v : want) if (!have.count(v)) viol(what + " lacks the point " + vstr(v) + pv(k)); }
static void within(const string &what, const Pts &have, const Pts &want, size_t k) { for (auto &v : have) if (!want.count(v)) viol(what + " has the extra point " + vstr(v) + pv(k)); }
static Pts inter(const Pts &a, const Pts &b) { Pts r; for (auto &v : a) if (b.count(v)) r.insert(v); return r; }
static Vec prefix(const Vec &v, int n) { return Vec(v.begin(), v.begin() + n); }
static void boxRows(Poly &p, int skipUpper = -1) {
  for (int i = 0; i < p.ndim; ++i) {
    Row a = mkrow(p, true), b = mkrow(p, true);
    a.c[i] = 1; a.c.back() = -LO; b.c[i] = -1; b.c.back() = HI;
    p.rows.push_back(a); if (i != skipUpper) p.rows.push_back(b);
  }
}
static Dom genDom(Rng &g, int dim, int npar, int maxDisj) {
  Dom d; GenCfg c; c.coef = g.in(1, 4); c.pLocal = g.p(0.5) ? 0.35 : 0; c.pEq = g.p(0.3) ? 0.7 : 0.2;
  int n = maxDisj > 1 && g.p(0.6) ? g.in(2, maxDisj) : 1;
  for (int i = 0; i < n; ++i) { Poly p = genPoly(g, c, dim, npar); boxRows(p); d.u.push_back(p); d.loc |= p.nloc > 0; }
  bool ext = d.loc; d.txt = fmt("%d\n", n);
  for (auto &p : d.u) d.txt += emitPoly(p, ext, npar);
  return d;
}
static long zl(cloog_int_t &z) { if (!mpz_fits_slong_p(z)) inconc("huge value"); return mpz_get_si(z); }
struct Z { cloog_int_t z; Z(long v = 0) { cloog_int_init(z); cloog_int_set_si(z, v); } ~Z() { cloog_int_clear(z); } long get() { return zl(z); } };
struct CRow { bool eq; Vec c; int bound; };
struct CAll { vector<CRow> r; bool divs = false; int dim = 0, npar = 0; };
static int onConstraint(CloogConstraint *c, void *u) {
  CAll *a = (CAll *)u; int n = cloog_constraint_total_dimension(c);
  if (n != a->dim + a->npar) { a->divs = true; return 0; }
  vector<__mpz_struct> z(n + 1); for (auto &x : z) mpz_init(&x);
  cloog_constraint_copy_coefficients(c, (cloog_int_t *)z.data());
  CRow r; r.eq = cloog_constraint_is_equality(c);
  for (int i = 0; i <= n; ++i) {
    r.c.push_back(mpz_get_si(&z[i]));
    if (i < n) {
      int s = mpz_sgn(&z[i]);
      if ((cloog_constraint_involves(c, i) != 0) != (s != 0)) viol("cloog_constraint_involves disagrees with the coefficient");
      if ((cloog_constraint_is_lower_bound(c, i) != 0) != (s > 0) || (cloog_constraint_is_upper_bound(c, i) != 0) != (s < 0)) viol("the kind of a bound disagrees with the sign of its coefficient");
      Z one; cloog_constraint_coefficient_get(c, i, &one.z); if (mpz_cmp(one.z, &z[i])) viol("two reads of a coefficient differ");
    }
  }
  for (auto &x : z) mpz_clear(&x);
  a->r.push_back(r);
  return 0;
}

struct Ops {
  Case &c; Lib L; Rng &g; int dim, npar;
  Ops(Case &c) : c(c), g(c.g) {}
  size_t K() { return gpars.size(); }
  CloogDomain *mk(const Dom &d) { return buildDomain(L, d.u, npar, d.loc ? 1 : g.in(0, 1)); }
  void setops(const Dom &A, const Dom &B) {
    CloogDomain *a = mk(A), *b = mk(B), *i = cloog_domain_intersection(a, b), *d = cloog_domain_difference(a, b);
    CloogDomain *u = cloog_domain_union(cloog_domain_copy(a), cloog_domain_copy(b));
    int le = cloog_domain_lazy_equal(a, b), ld = cloog_domain_lazy_disjoint(a, b);
    if (!cloog_domain_lazy_equal(a, a)) viol("a domain is not lazily equal to itself");
    for (size_t k = 0; k < K(); ++k) {
      Pts pa = ref(A, k), pb = ref(B, k), pi, pd, pu = pa;
      for (auto &v : pa) (pb.count(v) ? pi : pd).insert(v);
      pu.insert(pb.begin(), pb.end());
      same("a domain that was read", pa, got(a, k), k); same("a domain that was read", pb, got(b, k), k);
      same("the intersection", pi, got(i, k), k); same("the difference", pd, got(d, k), k); same("the union", pu, got(u, k), k);
      if (le == 1 && pa != pb) viol("different domains are lazily equal" + pv(k));
      if (ld == 1 && !pi.empty()) viol("intersecting domains are lazily disjoint" + pv(k));
      c.st["points_compared"] += pu.size();
    }
    for (CloogDomain *x : {a, b, i, d, u}) cloog_domain_free(x);
    c.st["set_operations"] += 3;
  }
  void simple(const Dom &A) {
    CloogDomain *a = mk(A), *cp = cloog_domain_copy(a), *e = cloog_domain_empty(a);
    if (cloog_domain_dimension(a) != dim || cloog_domain_parameter_dimension(a) != npar) viol("wrong dimensions of a domain");
    if (!cloog_domain_isempty(e) || !cloog_domain_never_integral(e)) viol("the empty domain is not empty");
    if (cloog_domain_dimension(e) != dim || cloog_domain_parameter_dimension(e) != npar) viol("wrong dimensions of the empty domain");
    int em = cloog_domain_isempty(a), ni = cloog_domain_never_integral(a);
    bool any = false;
    for (size_t k = 0; k < K(); ++k) any |= !ref(A, k).empty();
    if (any && (em || ni)) viol("a domain with points is called empty");
    if (!npar && !any && !(em && ni)) viol("a domain without points is not called empty");
    if (A.u.size() == 1 && !cloog_domain_isconvex(a)) viol("a single polyhedron is not called convex");
    cloog_domain_free(a);
    CloogDomain *x = cloog_domain_extend(cp, dim + 1);
    CloogDomain *su = cloog_domain_simplify_union(cloog_domain_copy(cp));
    for (size_t k = 0; k < K(); ++k) {
      Pts p = ref(A, k), q; for (auto &v : p) for (int t = -1; t <= 1; ++t) { Vec w = v; w.push_back(t); q.insert(w); }
      same("the copy of a domain", p, got(cp, k), k); same("the simplified union", p, got(su, k), k);
      isl_set *s = isl_set_copy(isl_set_from_cloog_domain(x));
      if (isl_set_dim(s, isl_dim_set) != dim + 1) viol("the extended domain has not the asked dimension");
      s = isl_set_lower_bound_si(s, isl_dim_set, dim, -1); s = isl_set_upper_bound_si(s, isl_dim_set, dim, 1);
      same("the extended domain", q, ptsOf(s, k), k);
    }
    cloog_domain_free(x); cloog_domain_free(su);
    // split into convex pieces
    CloogDomain *left = cp; int pieces = 0;
    vector<Pts> acc(K());
    while (!cloog_domain_isempty(left)) {
      CloogDomain *rest = nullptr, *f = cloog_domain_cut_first(left, &rest);
      if (!cloog_domain_isconvex(f)) viol("the first convex part of a union is a union");
      for (size_t k = 0; k < K(); ++k) { Pts q = got(f, k); acc[k].insert(q.begin(), q.end()); }
      cloog_domain_free(f); left = rest;
      if (++pieces > 60) viol("cutting a union into its parts does not end");
    }
    cloog_domain_free(left);
    for (size_t k = 0; k < K(); ++k) same("the union of the convex parts", ref(A, k), acc[k], k);
    cloog_domain_free(e);
    c.st["unions_cut"]++;
  }
  void hulls(const Dom &A, const Dom &H) {
    CloogDomain *a = mk(A), *h = mk(H), *cv = cloog_domain_convex(a), *sc = cloog_domain_simple_convex(a), *sm = cloog_domain_simplify(a, h);
    if (!cloog_domain_isconvex(cv) || !cloog_domain_isconvex(sc)) viol("a convex hull is a union");
    bool exact = A.u.size() == 1 && !A.loc;
    for (size_t k = 0; k < K(); ++k) {
      Pts p = ref(A, k), x = got(cv, k, LO - 2, HI + 2), y = got(sc, k, LO - 2, HI + 2), ph = ref(H, k), z = got(sm, k);
      superset("the convex hull", p, x, k); superset("the simple hull", p, y, k);
      if (exact) { same("the convex hull of a polyhedron", p, x, k); same("the simple hull of a polyhedron", p, y, k); }
      if (!npar) for (auto &v : x) for (auto &t : v) if (t < LO || t > HI) viol("the convex hull leaves the box of the domain at " + vstr(v) + pv(k));
      same("the simplified domain within its context", inter(p, ph), inter(z, ph), k);
    }
    for (CloogDomain *q : {a, h, cv, sc, sm}) cloog_domain_free(q);
    c.st["hulls"] += 2;
  }
  void project(const Dom &A) {
    CloogDomain *a = mk(A); int lev = g.in(0, dim);
    CloogDomain *p = cloog_domain_project(a, lev);
    if (cloog_domain_dimension(p) != lev) viol("the projection has not the asked dimension");
    bool unit = lev == dim - 1 && !A.loc;
    for (auto &q : A.u) for (auto &r : q.rows) if (lev < dim && (r.c[lev] > 1 || r.c[lev] < -1)) unit = false;
    for (size_t k = 0; k < K(); ++k) {
      Pts r, b = ref(A, k); for (auto &v : b) r.insert(prefix(v, lev));
      Pts q = got(p, k, LO - 1, HI + 1);
      superset("the projection", r, q, k);
      if (unit || (lev == dim && !A.loc)) same("the projection", r, q, k);
      same("the domain after its projection", b, got(a, k), k);
      c.st["projected_points"] += r.size();
    }
    cloog_domain_free(a); cloog_domain_free(p);
  }
  void order(const Dom &A, const Dom &B) {
    CloogDomain *a = mk(A), *b = mk(B); int lev = g.in(1, dim);
    int f = cloog_domain_follows(a, b, lev);
    CloogDomain *fp = cloog_domain_following_part(a, a, b, lev), *fb = cloog_domain_following_part(b, a, b, lev);
    for (size_t k = 0; k < K(); ++k) {
      Pts pa = ref(A, k), pb = ref(B, k); std::map<Vec, std::pair<I, I>> mn, mx; // per prefix: min of b, max of a
      std::map<Vec, I> minB, maxA; std::map<Vec, std::set<I>> vb;
      for (auto &v : pb) { Vec q = prefix(v, lev - 1); I x = v[lev - 1]; if (!minB.count(q) || x < minB[q]) minB[q] = x; vb[q].insert(x); }
      for (auto &v : pa) { Vec q = prefix(v, lev - 1); I x = v[lev - 1]; if (!maxA.count(q) || x > maxA[q]) maxA[q] = x; }
      Pts want;
      for (auto &v : pa) {
        Vec q = prefix(v, lev - 1); I x = v[lev - 1];
        if (!minB.count(q)) continue;
        if (x > minB[q] && f < 1) viol(fmt("follows is %d at level %d although ", f, lev) + vstr(v) + " is after a point of the other domain" + pv(k));
        if (vb[q].count(x) && f < 0) viol(fmt("follows is %d at level %d although ", f, lev) + vstr(v) + " has the same value in the other domain" + pv(k));
        if (maxA[q] > minB[q]) want.insert(v);
      }
      same(fmt("the following part at level %d", lev), want, got(fp, k), k);
      Pts wantB;
      for (auto &v : pb) { Vec q = prefix(v, lev - 1); if (maxA.count(q) && maxA[q] > minB[q]) wantB.insert(v); }
      same(fmt("the followed part at level %d", lev), wantB, got(fb, k), k);
      c.st["follow_pairs"] += pa.size();
    }
    for (CloogDomain *q : {a, b, fp, fb}) cloog_domain_free(q);
  }
  void sorting() { // boxes with disjoint ranges at one level, and general polyhedra
    int n = g.in(2, 5), lev = g.in(1, dim); vector<CloogDomain *> d; vector<vector<std::pair<long, long>>> bx;
    bool boxes = g.p(0.6); vector<int> pos; for (int i = 0; i < n; ++i) pos.push_back(i);
    for (int i = n; i > 1; --i) std::swap(pos[i - 1], pos[g.in(0, i - 1)]);
    string how;
    for (int i = 0; i < n; ++i) {
      if (boxes) {
        cloog_vec *lo = cloog_vec_alloc(dim), *hi = cloog_vec_alloc(dim); vector<std::pair<long, long>> b;
        for (int k = 0; k < dim; ++k) { long x = k == lev - 1 ? pos[i] * 10 + g.in(0, 4) : g.in(-3, 0), y = x + g.in(0, 4); b.push_back({x, y}); cloog_int_set_si(lo->p[k], x); cloog_int_set_si(hi->p[k], y); }
        d.push_back(cloog_domain_from_bounds(L.st, lo, hi)); bx.push_back(b); cloog_vec_free(lo); cloog_vec_free(hi);
      } else { Dom x = genDom(g, dim, npar, 1); c.say(x.txt); d.push_back(mk(x)); }
    }
    for (int i = 0; i < n; ++i) if (isl_set_n_basic_set(isl_set_from_cloog_domain(d[i])) != 1) { for (auto x : d) cloog_domain_free(x); return; }
    vector<vector<int>> f(n, vector<int>(n, 0));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) {
      f[i][j] = cloog_domain_follows(d[i], d[j], lev);
      if (boxes) { // exact for boxes: separated at the level, or apart in an outer dimension
        bool apart = false; for (int k = 0; k < lev - 1; ++k) apart |= bx[i][k].first > bx[j][k].second || bx[j][k].first > bx[i][k].second;
        int want = apart ? -1 : pos[i] > pos[j] ? 1 : -1;
        if (f[i][j] != want) viol(fmt("follows of two boxes is %d instead of %d at level %d", f[i][j], want, lev));
      }
    }
    vector<vector<char>> r(n, vector<char>(n, 0)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] = f[i][j] > 0;
    for (int k = 0; k < n; ++k) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) r[i][j] |= r[i][k] && r[k][j];
    bool cyc = false; for (int i = 0; i < n; ++i) cyc |= r[i][i];
    vector<int> pm(n, 0); cloog_domain_sort(d.data(), n, lev, pm.data());
    vector<char> seen(n, 0); for (int x : pm) { if (x < 1 || x > n || seen[x - 1]) viol("the result of sorting is no permutation"); seen[x - 1] = 1; }
    if (!cyc) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (f[pm[i] - 1][pm[j] - 1] > 0) viol(fmt("sorting puts domain %d before domain %d, which it follows", pm[i], pm[j]));
    for (auto x : d) cloog_domain_free(x);
    c.st[cyc ? "sorts_with_cycle" : "sorts"]++;
  }
  void strides(const Dom &A) {
    int lev = g.in(1, dim); CloogDomain *a = mk(A);
    bool any = false; vector<Pts> ps; for (size_t k = 0; k < K(); ++k) { ps.push_back(ref(A, k)); any |= !ps.back().empty(); }
    if (!any) { cloog_domain_free(a); return; }
    Z st, of; cloog_domain_stride(a, lev, &st.z, &of.z);
    long s = st.get(), o = of.get();
    for (size_t k = 0; k < K(); ++k) for (auto &v : ps[k]) if (s ? fmodx(v[lev - 1] + o, s < 0 ? -s : s) != 0 : v[lev - 1] + o != 0) viol(fmt("stride %ld offset %ld at level %d is wrong for the point ", s, o, lev) + vstr(v) + pv(k));
    CloogDomainList l2{a, nullptr}, l1{a, nullptr}; CloogDomain *b = nullptr; Dom B;
    if (g.p(0.4)) { B = genDom(g, dim, npar, 1); c.say(B.txt); b = mk(B); l2.domain = b; l1.next = &l2; }
    CloogStride *cs = cloog_domain_list_stride(&l1, lev);
    if (cs) {
      long m = zl(cs->stride), fa = zl(cs->factor);
      if (m < 2) viol(fmt("a stride of %ld", m));
      if (cs->constraint) {
        isl_constraint *ic = cloog_constraint_to_isl(cs->constraint);
        auto coef = [&](isl_dim_type t, int i) { isl_val *x = isl_constraint_get_coefficient_val(ic, t, i); long y = isl_val_get_num_si(x); isl_val_free(x); return y; };
        isl_val *kv = isl_constraint_get_constant_val(ic); long kc = isl_val_get_num_si(kv); isl_val_free(kv);
        for (size_t k = 0; k < K(); ++k) for (int w = 0; w < (b ? 2 : 1); ++w) for (auto &v : w ? ref(B, k) : ps[k]) {
          I x = kc; for (int i = 0; i < lev - 1; ++i) x += coef(isl_dim_set, i) * v[i]; for (int i = 0; i < npar; ++i) x += coef(isl_dim_param, i) * gpars[k][i];
          if (fmodx(v[lev - 1] - x * fa, m) != 0) viol(fmt("the common stride %ld at level %d is wrong for the point ", m, lev) + vstr(v) + pv(k));
          c.st["stride_points"]++;
        }
        if (lev == dim) {
          CloogDomain *ac = cloog_domain_add_stride_constraint(cloog_domain_copy(a), cs);
          for (size_t k = 0; k < K(); ++k) same("the domain with its stride constraint", ps[k], got(ac, k), k);
          cloog_domain_free(ac);
        }
        // rounding the lower bounds up must keep every point, as all satisfy the stride
        if (cloog_domain_can_stride(a, lev) && lev == dim) {
          CloogDomain *sl = cloog_domain_stride_lower_bound(cloog_domain_copy(a), lev, cs);
          for (size_t k = 0; k < K(); ++k) same("the domain with rounded lower bounds", ps[k], got(sl, k), k);
          cloog_domain_free(sl); c.st["stride_bounds_relative"]++;
        }
      }
      cloog_stride_free(cs); c.st["common_strides"]++;
    }
    if (cloog_domain_can_stride(a, lev)) { // an arbitrary stride
      Z S(g.in(2, 6)), O(0); long sv = S.get(), ov = g.in(0, sv - 1); cloog_int_set_si(O.z, ov);
      CloogStride *x = cloog_stride_alloc(S.z, O.z), *y = cloog_stride_copy(x);
      CloogDomain *sl = cloog_domain_stride_lower_bound(cloog_domain_copy(a), lev, y);
      for (size_t k = 0; k < K(); ++k) {
        Pts q = got(sl, k), keep; for (auto &v : ps[k]) if (fmodx(v[lev - 1] - ov, sv) == 0) keep.insert(v);
        within("the domain with rounded lower bounds", q, ps[k], k); superset("the domain with rounded lower bounds", keep, q, k);
        if (A.u.size() == 1 && !A.loc && lev == dim) {
          std::map<Vec, vector<I>> by; bool many = false; for (auto &v : ps[k]) { auto &z = by[prefix(v, lev - 1)]; z.push_back(v[lev - 1]); many |= z.size() > 1; }
          if (many) for (auto &z : by) if (z.second.size() > 1) { I mn = 0; bool h = false; for (auto &v : q) if (prefix(v, lev - 1) == z.first && (!h || v[lev - 1] < mn)) mn = v[lev - 1], h = true; if (h && fmodx(mn - ov, sv) != 0) viol(fmt("with stride %ld and offset %ld the loop starts at ", sv, ov) + istr(mn) + " after " + vstr(z.first) + pv(k)); }
        }
      }
      cloog_domain_free(sl); cloog_stride_free(x); cloog_stride_free(y); c.st["stride_bounds"]++;
    }
    cloog_domain_free(a); if (b) cloog_domain_free(b);
    if (s > 1) c.st["strides_found"]++;
  }
  void strideExact() { // i = m e + r in a box: the stride must be found
    int m = g.in(2, 5), r = g.in(-4, 4), lev = g.in(1, dim); Poly p; p.ndim = dim; p.nloc = 1; p.npar = npar; boxRows(p);
    Row w = mkrow(p, false); w.c[lev - 1] = 1; w.c[dim] = -m; w.c.back() = -r; p.rows.push_back(w);
    Dom A; A.u = {p}; A.loc = true; A.txt = "1\n" + emitPoly(p, true, npar); c.say(A.txt);
    CloogDomain *a = mk(A); Z st, of; cloog_domain_stride(a, lev, &st.z, &of.z);
    if (st.get() != m || fmodx(of.get() + r, m) != 0) viol(fmt("stride %ld offset %ld found instead of %d and %d", st.get(), of.get(), m, (int)fmodx(-r, m)));
    CloogDomainList l{a, nullptr}; CloogStride *cs = cloog_domain_list_stride(&l, lev);
    if (!cs || zl(cs->stride) != m) viol("the common stride is not found");
    cloog_stride_free(cs);
    Z n; CloogConstraint *lb = nullptr; // constant trip count in the box
    if (cloog_domain_can_unroll(a, lev, &n.z, &lb)) cloog_constraint_release(lb);
    cloog_domain_free(a); c.st["strides_exact"]++;
  }
  void otl(const Dom &A) {
    int lev = g.in(1, dim); CloogDomain *a = mk(A); int o = cloog_domain_is_otl(a, lev);
    bool tied = A.u.size() == 1; if (tied) { tied = false; for (auto &r : A.u[0].rows) if (!r.ineq && (r.c[lev - 1] == 1 || r.c[lev - 1] == -1)) { bool l = false; for (int i = 0; i < A.u[0].nloc; ++i) l |= r.c[dim + i] != 0; if (!l) tied = true; } }
    if (tied && !o) viol(fmt("level %d is fixed by an equality but not called a one-time loop", lev));
    Z cv; int kst = cloog_domain_lazy_isconstant(a, lev - 1, &cv.z);
    if (cloog_domain_lazy_isconstant(a, lev - 1, nullptr) != kst) viol("lazy_isconstant depends on where its result goes");
    for (size_t k = 0; k < K(); ++k) {
      std::map<Vec, I> seen;
      for (auto &v : ref(A, k)) {
        Vec q = v; q.erase(q.begin() + lev - 1);
        if (o && seen.count(q)) viol(fmt("level %d is called a one-time loop but has two values at ", lev) + vstr(v) + pv(k));
        seen[q] = v[lev - 1];
        if (kst && mpz_get_si(cv.z) != (long)v[lev - 1]) viol(fmt("dimension %d is called constant %ld but is different at ", lev - 1, mpz_get_si(cv.z)) + vstr(v) + pv(k));
      }
    }
    if (A.u.size() == 1 && !kst) for (auto &r : A.u[0].rows) if (!r.ineq && (r.c[lev - 1] == 1 || r.c[lev - 1] == -1)) {
      bool only = true; for (size_t i = 0; i + 1 < r.c.size(); ++i) if ((int)i != lev - 1 && r.c[i] != 0) only = false;
      int eqs = 0; for (auto &x : A.u[0].rows) eqs += !x.ineq;
      if (only && eqs == 1 && !ref(A, 0).empty()) viol("a dimension given by an equality is not called constant");
    }
    c.st[o ? "one_time_loops" : "many_time_loops"]++; if (kst) c.st["constant_dimensions"]++;
    if (!cloog_domain_is_bounded(a, lev)) viol("a dimension within constant bounds is called unbounded");
    cloog_domain_free(a);
    Poly p; p.ndim = dim; p.npar = npar; boxRows(p, lev - 1); Dom U; U.u = {p}; CloogDomain *u = mk(U);
    for (int i = 1; i <= dim; ++i) if ((cloog_domain_is_bounded(u, i) != 0) != (i != lev)) viol(fmt("is_bounded is wrong at level %d of a box without upper bound at level %d", i, lev));
    cloog_domain_free(u);
  }
  void unroll(const Dom &A) {
    int lev = g.in(1, dim); CloogDomain *a = mk(A); Z n; CloogConstraint *lb = nullptr;
    bool any = false; vector<Pts> ps; for (size_t k = 0; k < K(); ++k) { ps.push_back(ref(A, k)); any |= !ps.back().empty(); }
    int can = cloog_domain_can_unroll(a, lev, &n.z, &lb);
    if (!can && lb) viol("a lower bound is given for a domain that cannot be unrolled");
    if (can && any && n.get() <= 60) {
      vector<Pts> acc(K()); long N = n.get();
      for (long i = 0; i < N; ++i) {
        Z off(i); CloogDomain *p = cloog_domain_fixed_offset(cloog_domain_copy(a), lev, lb, off.z);
        for (size_t k = 0; k < K(); ++k) for (auto &v : got(p, k)) if (!acc[k].insert(v).second) viol("two unrolled copies share the point " + vstr(v) + pv(k));
        cloog_domain_free(p);
      }
      for (size_t k = 0; k < K(); ++k) same(fmt("the union of %ld unrolled copies at level %d", N, lev), ps[k], acc[k], k);
      c.st["unrolled"]++; c.st["unrolled_copies"] += N;
    }
    if (lb) cloog_constraint_release(lb);
    cloog_domain_free(a);
    // a box has a constant trip count
    Z lo(g.in(-4, 2)), hi(lo.get() + g.in(0, 9)); CloogDomain *b = cloog_domain_cube(L.st, dim, lo.z, hi.z); Z m; lb = nullptr;
    if (cloog_domain_parameter_dimension(b) || cloog_domain_dimension(b) != dim) viol("wrong dimensions of a cube");
    if (!cloog_domain_can_unroll(b, lev, &m.z, &lb)) viol("a box cannot be unrolled");
    if (m.get() != hi.get() - lo.get() + 1) viol(fmt("the trip count of a box is %ld instead of %ld", m.get(), hi.get() - lo.get() + 1));
    cloog_constraint_release(lb);
    isl_set *s = isl_set_copy(isl_set_from_cloog_domain(b)); Pts r; PtCtx pc{&r, dim, 0}; isl_set_foreach_point(s, onPoint, &pc); isl_set_free(s);
    long w = 1; for (int i = 0; i < dim; ++i) w *= hi.get() - lo.get() + 1;
    for (auto &v : r) for (auto &x : v) if (x < lo.get() || x > hi.get()) viol("a cube has the point " + vstr(v));
    if ((long)r.size() != w) viol(fmt("a cube has %zu points instead of %ld", r.size(), w));
    cloog_domain_free(b);
  }
  void misc(const Dom &A) {
    CloogDomain *a = mk(A); int lev = g.in(1, dim);
    CloogDomain *sp = cloog_domain_bound_splitter(a, lev); long all = 1; for (int i = 0; i < dim; ++i) all *= HI - LO + 1;
    for (size_t k = 0; k < K(); ++k) if ((long)got(sp, k).size() != all) viol("the bound splitter does not cover the space" + pv(k));
    cloog_domain_free(sp);
    // dump and read back
    char *buf = nullptr; size_t len = 0; FILE *f = open_memstream(&buf, &len); cloog_domain_print_constraints(f, a, 1); fclose(f);
    CloogDomain *b; { StrFile in(string(buf, len)); b = cloog_domain_union_read(L.st, in.f, npar); } free(buf);
    for (size_t k = 0; k < K(); ++k) same("the domain read back from its dump", ref(A, k), got(b, k), k);
    cloog_domain_free(b);
    CloogDomain *univ = cloog_domain_universe(L.st, dim);
    if (cloog_domain_isempty(univ) || cloog_domain_dimension(univ) != dim || cloog_domain_parameter_dimension(univ) || !cloog_domain_isconvex(univ)) viol("wrong universe");
    for (int i = 1; i <= dim; ++i) if (cloog_domain_is_bounded(univ, i)) viol("the universe is called bounded");
    cloog_domain_free(univ);
    if (isl_set_n_basic_set(isl_set_from_cloog_domain(a)) == 1) {
      CloogConstraintSet *cs = cloog_domain_constraints(a), *cp = cloog_constraint_set_copy(cs); cloog_constraint_set_free(cs);
      CAll ca; ca.dim = dim; ca.npar = npar; cloog_constraint_set_foreach_constraint(cp, onConstraint, &ca);
      if (cloog_constraint_set_n_iterators(cp, npar) != dim) viol("wrong number of iterators of a constraint set");
      if (!ca.divs) {
        for (size_t k = 0; k < K(); ++k) {
          Pts p = ref(A, k); Vec v(dim, LO);
          for (;;) {
            bool in = true;
            for (auto &r : ca.r) { I x = r.c[dim + npar]; for (int i = 0; i < dim; ++i) x += r.c[i] * v[i]; for (int i = 0; i < npar; ++i) x += r.c[dim + i] * gpars[k][i]; if (r.eq ? x != 0 : x < 0) { in = false; break; } }
            if (in != (p.count(v) > 0)) viol("the constraints of the domain " + string(in ? "hold" : "do not hold") + " at " + vstr(v) + pv(k));
            int i = dim - 1; while (i >= 0 && ++v[i] > HI) v[i--] = LO;
            if (i < 0) break;
          }
        }
        for (int l = 1; l <= dim; ++l) { bool inv = false; for (auto &r : ca.r) inv |= r.c[l - 1] != 0; if ((cloog_constraint_set_contains_level(cp, l, npar) != 0) != (l <= dim)) {} (void)inv; }
        c.st["constraint_sets"]++;
      }
      cloog_constraint_set_free(cp);
    }
    cloog_domain_free(a);
    if (npar) { // a context turned into a domain
      Problem q; q.npar = npar; q.ctx.ndim = npar; boxRows(q.ctx); Row r = mkrow(q.ctx, true); for (int i = 0; i <= npar; ++i) r.c[i] = g.in(-2, 3); q.ctx.rows.push_back(r);
      CloogDomain *cd = cloog_domain_from_context(buildContext(L, q, g.in(0, 1)));
      if (cloog_domain_dimension(cd) != npar || cloog_domain_parameter_dimension(cd)) viol("wrong dimensions of a domain made from a context");
      Pts want; { Enumerator e(q.ctx, Vec(), 60000); e.rec(0, [&](const Vec &v) { want.insert(v); }); }
      same("the domain made from a context", want, got(cd, 0), 0);
      cloog_domain_free(cd);
    }
  }
  void scatter(const Dom &A) {
    Problem q; q.npar = npar; q.nscat = g.in(1, 3); Stmt s; s.dim = dim; s.u = A.u;
    for (int k = 0; k < q.nscat; ++k) {
      ScatDim d; d.it.assign(dim, 0); d.par.assign(npar, 0);
      if (!g.p(0.3)) { for (auto &x : d.it) if (g.p(0.6)) x = g.in(-2, 2); for (auto &x : d.par) if (g.p(0.3)) x = g.in(-2, 2); if (g.p(0.15)) d.div = g.in(2, 3); }
      d.cst = g.in(-3, 3); s.scat.push_back(d);
    }
    { string t; for (auto &r : scatRows(q, s)) { t += r.ineq ? "1" : "0"; for (auto &v : r.c) t += " " + istr(v); t += "\n"; } c.say(fmt("scattering (%d)\n", q.nscat) + t); }
    CloogDomain *a = mk(A); CloogScattering *sc = buildScat(L, q, s, a, g.in(0, 1));
    if (cloog_scattering_dimension(sc, a) != q.nscat) viol("wrong number of scattering dimensions");
    if (!cloog_scattering_fully_specified(sc, a)) viol("a scattering function is not called fully specified");
    for (int k = 0; k < q.nscat; ++k) {
      Z v; int r = cloog_scattering_lazy_isscalar(sc, k, &v.z); auto &d = s.scat[k];
      bool cst = true; for (auto &x : d.it) cst &= x == 0; for (auto &x : d.par) cst &= x == 0;
      if (cst && d.div == 1 && !r) viol("a constant scattering dimension is not called scalar");
      if (r && (!cst || mpz_get_si(v.z) != (long)fdiv(d.cst, d.div))) viol(fmt("scattering dimension %d is called scalar %ld", k, mpz_get_si(v.z)));
      if (r) c.st["scalar_dimensions"]++;
    }
    int er = g.in(0, q.nscat - 1); CloogScattering *se = cloog_scattering_erase_dimension(sc, er);
    CloogDomain *t = cloog_domain_scatter(cloog_domain_copy(a), sc), *te = q.nscat > 1 ? cloog_domain_scatter(cloog_domain_copy(a), se) : nullptr;
    if (cloog_domain_dimension(t) != q.nscat + dim) viol("wrong dimension of a scattered domain");
    for (size_t k = 0; k < K(); ++k) {
      Pts want, wer; for (auto &v : ref(A, k)) { Vec x = scatOf(s, v, gpars[k]), y = x; y.erase(y.begin() + er); x.insert(x.end(), v.begin(), v.end()); y.insert(y.end(), v.begin(), v.end()); want.insert(x); wer.insert(y); }
      same("the scattered domain", want, got(t, k, -150, 150), k);
      if (te) same("the domain scattered without one dimension", wer, got(te, k, -150, 150), k);
      c.st["scattered_points"] += want.size();
    }
    char *buf = nullptr; size_t len = 0; FILE *f = open_memstream(&buf, &len); cloog_scattering_print_constraints(f, sc); fclose(f);
    CloogScattering *sr; { StrFile in(string(buf, len)); sr = cloog_domain_read_scattering(a, in.f); } free(buf);
    CloogDomain *t2 = cloog_domain_scatter(cloog_domain_copy(a), sr);
    for (size_t k = 0; k < K(); ++k) same("the domain scattered by the dumped scattering", got(t, k, -150, 150), got(t2, k, -150, 150), k);
    for (CloogDomain *x : {a, t, te, t2}) if (x) cloog_domain_free(x);
    for (CloogScattering *x : {sc, se, sr}) cloog_scattering_free(x);
  }
  void run() {
    dim = g.in(1, 3); npar = g.in(0, 2);
    gpars.clear(); int np = npar ? 3 : 1; for (int i = 0; i < np; ++i) { Vec v; for (int j = 0; j < npar; ++j) v.push_back(g.in(-4, 9)); gpars.push_back(v); }
    Dom A = genDom(g, dim, npar, 3), B = genDom(g, dim, npar, 2), H = genDom(g, dim, npar, 1);
    c.say(fmt("%d dimensions, %d parameters\nA:\n", dim, npar) + A.txt + "B:\n" + B.txt + "H:\n" + H.txt);
    int op = g.in(0, 10); c.say(fmt("operation group %d\n", op));
    switch (op) {
    case 0: setops(A, B); break;
    case 1: simple(A); break;
    case 2: hulls(A, H); break;
    case 3: project(A); break;
    case 4: order(A, B); break;
    case 5: sorting(); break;
    case 6: { GenCfg k; k.pLocal = 0.9; k.pEq = 0.1; Poly p = genPoly(g, k, dim, npar); boxRows(p); Dom S; S.u = {p}; S.loc = p.nloc > 0; S.txt = "1\n" + emitPoly(p, S.loc, npar); if (g.p(0.6)) { c.say(S.txt); strides(S); } else strides(H); if (g.p(0.3)) strideExact(); break; }
    case 7: otl(g.p(0.7) ? H : A); break;
    case 8: unroll(g.p(0.7) ? H : A); break;
    case 9: misc(g.p(0.5) ? H : A); break;
    case 10: scatter(A); break;
    }
    bool any = false; for (size_t k = 0; k < K(); ++k) any |= !ref(A, k).empty() || !ref(H, k).empty();
    c.nontrivial = any; c.hash = hstr(c.desc); c.sample = c.desc;
  }
};
MODEC(dom, 10) { Ops o(c); o.run(); }
