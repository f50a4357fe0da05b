// Monitors of the library interface: construction paths, resources,
// determinism, dumps, large integers, AST queries.
#include "api.h"
#include <malloc.h>
#include <signal.h>
#include <sys/wait.h>
#include <pthread.h>

static void namesUsed(clast_stmt *s, std::set<string> &it) {
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_ass)) it.insert(((clast_assignment *)s)->LHS);
    else if (CLAST_STMT_IS_A(s, stmt_block)) namesUsed(((clast_block *)s)->body, it);
    else if (CLAST_STMT_IS_A(s, stmt_for)) { it.insert(((clast_for *)s)->iterator); namesUsed(((clast_for *)s)->body, it); }
    else if (CLAST_STMT_IS_A(s, stmt_guard)) namesUsed(((clast_guard *)s)->then, it);
  }
}

// The same problem given through the interface instead of a file.
MODE(build) {
  InstCfg cfg; cfg.pCorpus = cfg.pMut = 0;
  Inst in = makeInst(c, cfg);
  Opt o = genOpt(c.g, in, c.g.p(0.2));
  int way = c.g.p(0.3) ? 3 : c.g.p(0.4) ? 4 : -1;
  c.say(in.text + "# options:" + o.str() + "\n");
  long total = 0;
  auto keep = keepable(c, in, 3, 60000, &total);
  Lib L; o.apply(L.o);
  Api a;
  CloogInput *input = buildInput(L, c.g, in, a, way);
  c.say("# built as: " + a.how + "\n");
  clast_stmt *root = cloog_clast_create_from_input(input, L.o);
  c.say("/*\n" + printAst(root, L.o) + "*/\n");
  auto who = [&](clast_user_stmt *u) -> int {
    int k = u->statement->number - 1;
    const char *n = u->statement->name;
    if (a.namesGiven) {
      if (!n) viol("a statement lost its name");
      int f = -1; for (size_t s = 0; s < a.names.size(); ++s) if (a.names[s] == n) f = s;
      if (f < 0) viol(string("a statement has a name that was never given: ") + n);
      if (!a.unionMap && f != k) viol(fmt("statement %d carries the name %s of statement %d", k + 1, n, f + 1));
      k = f;
    }
    if (!a.unionMap) { if (u->statement->usr != usrOf(k)) viol(fmt("statement %d lost the pointer of its user", k + 1)); }
    else if (u->statement->usr) viol(fmt("statement %d got a user pointer that was never given", k + 1));
    c.st["usr_pointers_checked"]++;
    return k;
  };
  for (auto &v : keep) runMon(c, root, in, v, a.pn, who, a.how);
  std::set<string> used; namesUsed(root, used);
  if (!a.in.empty() && (!in.p().nscat || !a.sn.empty())) {
    std::set<string> given(a.in.begin(), a.in.end()); given.insert(a.sn.begin(), a.sn.end());
    for (auto &n : used) if (!given.count(n)) viol("the code uses an iterator name that was never given: " + n);
    vector<string> order = a.sn; order.insert(order.end(), a.in.begin(), a.in.end());
    c.st["names_checked"] += checkNesting(root, order);
  }
  // printed statements carry the names
  string text = printAst(root, L.o);
  std::set<string> calls; std::function<void(clast_stmt *)> w = [&](clast_stmt *s) { for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_user)) { auto *st = ((clast_user_stmt *)s)->statement; calls.insert(st->name ? string(st->name) : fmt("S%d", st->number)); }
    else if (CLAST_STMT_IS_A(s, stmt_block)) w(((clast_block *)s)->body);
    else if (CLAST_STMT_IS_A(s, stmt_for)) w(((clast_for *)s)->body);
    else if (CLAST_STMT_IS_A(s, stmt_guard)) w(((clast_guard *)s)->then); } };
  w(root);
  for (auto &n : calls) if (text.find(n + "(") == string::npos && text.find(n + " ;") == string::npos && text.find(n + ";") == string::npos) viol("the printed code does not name statement " + n);
  cloog_clast_free(root);
  c.st["programs"]++; c.st["ways_" + string(way == 3 ? "union_map" : way == 4 ? "isl_set" : "mixed")]++;
  c.hash = mix(hstr(in.text), hstr(a.how)); c.nontrivial = total > 0;
  if (c.nontrivial) c.sample = a.how + ": " + text.substr(0, 300);
}

// Dumps of the input read back give the same problem.
MODE(dump) {
  InstCfg cfg; cfg.pCorpus = 0.1; cfg.pMut = 0.1;
  Inst in = makeInst(c, cfg);
  c.say(in.text);
  long total = 0;
  auto keep = keepable(c, in, 3, 60000, &total);
  vector<string> n1, n2;
  auto names = [](CloogInput *i) { vector<string> r; for (int k = 0; k < 3; ++k) { if (!i->ud->name[k]) { r.push_back("none"); continue; } for (int j = 0; j < i->ud->n_name[k]; ++j) r.push_back(fmt("%d:%s", k, i->ud->name[k][j])); } int n = 0; for (auto *d = i->ud->domain; d; d = d->next) ++n; r.push_back(fmt("%d statements", n)); return r; };
  string t1, t2; bool fort = c.g.p(0.2), api = !in.corpus && c.g.p(0.4), viaProg = c.g.p(0.35);
  vector<string> pn = pnames(in);
  auto grab = [&](const std::function<void(FILE *)> &f) { char *b = nullptr; size_t n = 0; FILE *o = open_memstream(&b, &n); f(o); fclose(o); string r(b, n); free(b); return r; };
  {
    Lib L; CloogInput *input;
    if (api) { Api a; input = buildInput(L, c.g, in, a, -1); pn = a.pn; L.o->language = fort ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C; }
    else { in.c.lang = fort ? 'f' : 'c'; in.emit(); StrFile f(in.text); input = cloog_input_read(f.f, L.o); }
    n1 = names(input);
    if (viaProg) {
      // the program form, in the conditions its comment asks for: before generation, without scalar dimensions and blocks
      L.o->noscalars = L.o->noblocks = 1;
      CloogProgram *p = cloog_program_alloc(input->context, input->ud, L.o);
      p->language = fort ? 'f' : 'c';
      free(input);
      t1 = grab([&](FILE *f) { cloog_program_dump_cloog(f, p, nullptr); });
      cloog_program_free(p);
    } else {
      t1 = grab([&](FILE *f) { cloog_input_dump_cloog(f, input, L.o); });
      cloog_input_free(input);
    }
  }
  c.say("# dump:\n" + t1);
  Lib L; StrFile f(t1);
  CloogInput *input = cloog_input_read(f.f, L.o);
  n2 = names(input);
  if (viaProg) {
    // names are always written; scattering dimensions have become iterators
    vector<string> want, got;
    auto take = [](const vector<string> &v, const char *k, const char *as, vector<string> &o) { for (auto &x : v) if (x.compare(0, 2, k) == 0) o.push_back(as + x.substr(2)); };
    if (n1[0] != "none") { take(n1, "0:", "p:", want); take(n2, "0:", "p:", got); }
    bool sn = false, itn = false; for (auto &x : n1) { if (x.compare(0, 2, "2:") == 0) sn = true; if (x.compare(0, 2, "1:") == 0) itn = true; }
    vector<string> all; take(n2, "1:", "", all);
    if (sn) { vector<string> w; take(n1, "2:", "", w); for (size_t i = 0; i < w.size(); ++i) { want.push_back("s:" + w[i]); got.push_back("s:" + (i < all.size() ? all[i] : string("missing"))); } }
    if (itn) { vector<string> w; take(n1, "1:", "", w); for (size_t i = 0; i < w.size(); ++i) { size_t k = in.p().nscat + i; want.push_back("i:" + w[i]); got.push_back("i:" + (k < all.size() ? all[k] : string("missing"))); } }
    want.push_back(n1.back()); got.push_back(n2.back());
    if (want != got) viol("the names or the statement count changed through the dump of the program: " + joinNames(want) + " became " + joinNames(got));
    vector<string> q; take(n2, "0:", "", q); if ((int)q.size() >= in.npar() && in.npar()) pn = q;
  } else if (n1 != n2) viol("the names or the statement count changed through the dump: " + joinNames(n1) + " became " + joinNames(n2));
  c.st["names_compared"] += n1.size();
  if ((L.o->language == CLOOG_LANGUAGE_FORTRAN) != fort) viol("the dump changed the language");
  t2 = grab([&](FILE *f) { cloog_input_dump_cloog(f, input, L.o); });
  if (!viaProg && t1 != t2) c.st["dump_of_dump_differs"]++;
  L.o->language = CLOOG_LANGUAGE_C;
  clast_stmt *root = cloog_clast_create_from_input(input, L.o);
  for (auto &v : keep) {
    if (!viaProg || !in.p().nscat) { runMon(c, root, in, v, pn, byNumber, "program generated from the dump"); continue; }
    Expect e = in.expect(v, 60000);
    Monitor m(e, false, "program generated from the dump of the program, " + parStr(in, v));
    ClastInterp ip;
    for (int i = 0; i < in.npar(); ++i) ip.env[pn[i]] = v[i];
    size_t ns = in.p().nscat;
    ip.onUser = [&](clast_user_stmt *u, const Vec &a) {
      if (a.size() < ns) viol("a statement of the dumped program has lost its scattering dimensions");
      Vec date(a.begin(), a.begin() + ns), pt(a.begin() + ns, a.end()); int k = byNumber(u);
      if (k >= 0 && k < (int)e.st.size() && e.st[k].count(pt) && e.st[k][pt].date != date) viol("an instance of the dumped program has another date");
      m.event(k, pt);
    };
    ip.run(root); m.finish();
    c.st["instances"] += m.seen; c.st["executions"]++;
  }
  cloog_clast_free(root);
  c.st["dumps"]++; if (viaProg) c.st["program_dumps"]++;
  c.hash = hstr(t1); c.nontrivial = total > 0;
  if (c.nontrivial) c.sample = t1.substr(0, 500);
}

// Values beyond machine integers: the problem translated by huge offsets.
static Inst shifted(Rng &g, const Inst &in0) {
  Inst in = in0; Problem &p = in.c.p;
  auto big = [&]() -> I {
    static const int sh[] = {31, 32, 33, 62, 63, 64, 65, 70, 80};
    if (g.p(0.35)) return 0;
    I v = (I)1 << sh[g.in(0, 8)]; v += g.in(-3, 3);
    return g.p(0.5) ? v : -v;
  };
  Vec po; for (int i = 0; i < p.npar; ++i) po.push_back(big());
  auto fixRows = [&](Poly &q, const Vec &off, const Vec &poff) {
    int n = q.ndim + q.nloc;
    for (auto &r : q.rows) {
      I k = r.c.back();
      for (int i = 0; i < q.ndim; ++i) k = addx(k, -mulx(r.c[i], off[i]));
      for (int i = 0; i < q.npar; ++i) k = addx(k, -mulx(r.c[n + i], poff[i]));
      r.c.back() = k;
    }
  };
  fixRows(p.ctx, po, Vec());
  Vec d0; for (int i = 0; i < 8; ++i) d0.push_back(big());
  for (auto &s : p.st) {
    Vec off; for (int i = 0; i < s.dim; ++i) off.push_back(g.p(0.6) ? d0[i] : big());
    for (auto &u : s.u) fixRows(u, off, po);
    // scatterings stay the same affine functions of the new coordinates
    if (p.nscat && g.p(0.3)) s.scat[g.in(0, p.nscat - 1)].cst += big();
  }
  in.emit();
  return in;
}
// Boxes with huge bounds given as numbers.
static void bigBox(Case &c, const Inst &in0) {
  Rng &g = c.g; int d = in0.p().maxdim(); bool cube = g.p(0.5);
  auto big = [&]() -> I { static const int sh[] = {15, 31, 32, 33, 62, 63, 64, 65, 70, 80}; I v = ((I)1 << sh[g.in(0, 9)]); if (g.p(0.3)) v += (I)1 << g.in(0, 79); v += g.in(-3, 3); return g.p(0.5) ? v : -v; };
  struct cloog_vec *lo = cloog_vec_alloc(d), *hi = cloog_vec_alloc(d); Vec l, h; Expect e; e.st.resize(1);
  auto put = [](cloog_int_t &z, const I &v) { mpz_set_str(z, istr(v).c_str(), 10); };
  for (int i = 0; i < d; ++i) {
    if (i && cube) { l.push_back(l[0]); h.push_back(h[0]); } else { l.push_back(big()); h.push_back(l[i] + g.in(0, cube ? 2 : 4)); }
    put(lo->p[i], l[i]); put(hi->p[i], h[i]);
  }
  string w = cube ? "cube" : "box"; for (int i = 0; i < d; ++i) w += " " + istr(l[i]) + ".." + istr(h[i]);
  c.say("# " + w + "\n");
  Lib L;
  CloogDomain *x = cube ? cloog_domain_cube(L.st, d, lo->p[0], hi->p[0]) : cloog_domain_from_bounds(L.st, lo, hi);
  cloog_vec_free(lo); cloog_vec_free(hi);
  CloogUnionDomain *ud = cloog_union_domain_add_domain(cloog_union_domain_alloc(0), "S1", x, nullptr, nullptr);
  clast_stmt *root = cloog_clast_create_from_input(cloog_input_alloc(cloog_domain_universe(L.st, 0), ud), L.o);
  string text = printAst(root, L.o); c.say("/*\n" + text + "*/\n");
  std::function<void(Vec &)> all = [&](Vec &v) { if ((int)v.size() == d) { e.st[0][v]; ++e.total; return; } for (I k = l[v.size()]; k <= h[v.size()]; ++k) { v.push_back(k); all(v); v.pop_back(); } };
  Vec v; all(v);
  Monitor m(e, true, w); ClastInterp ip; ip.onUser = [&](clast_user_stmt *u, const Vec &v) { m.event(byNumber(u), v); }; ip.run(root); m.finish();
  Expect e2 = e; for (auto &x : e2.st[0]) x.second.seen = false;
  Monitor m2(e2, true, "printed " + w); TextInterp tp; tp.onCall = [&](const string &n, const Vec &v) { m2.event(0, v); }; tp.run(CodeParser::parse(text)); m2.finish();
  cloog_clast_free(root);
  c.st["big_boxes"]++; c.st["instances"] += m.seen; c.hash = hstr(w); c.nontrivial = true; c.sample = w + ": " + text.substr(0, 300);
}
MODE(big) {
  InstCfg cfg; cfg.pCorpus = cfg.pMut = 0; cfg.gen.pFloor = 0.05;
  Inst in0 = makeInst(c, cfg);
  Rng sg = c.g;
  Inst in = shifted(c.g, in0);
  Opt o = genOpt(c.g, in, c.g.p(0.3));
  c.say(in.text + "# options:" + o.str() + "\n");
  // parameters: those of the small problem, translated the same way
  vector<Vec> pars;
  {
    Rng r2 = sg; auto big0 = [&]() -> I { static const int sh[] = {31, 32, 33, 62, 63, 64, 65, 70, 80}; if (r2.p(0.35)) return 0; I v = (I)1 << sh[r2.in(0, 8)]; v += r2.in(-3, 3); return r2.p(0.5) ? v : -v; };
    Vec po; for (int i = 0; i < in.npar(); ++i) po.push_back(big0());
    for (auto v : paramsFor(c, in0, 4)) { for (size_t i = 0; i < v.size(); ++i) v[i] += po[i]; if (ctxHolds(in.p(), v)) pars.push_back(v); }
  }
  if (pars.empty()) inconc("no parameter value satisfies the context");
  vector<Vec> keep; long total = 0;
  for (auto &v : pars) { try { total += in.expect(v, 60000).total; keep.push_back(v); } catch (TooBig &) {} }
  if (keep.empty()) inconc("too many points to enumerate");
  if (in0.p().maxdim() && c.g.p(0.2)) return bigBox(c, in0);
  Lib L; o.apply(L.o);
  clast_stmt *root;
  if (c.g.p(0.4)) { // given through matrices
    Api a; CloogInput *ci = buildInput(L, c.g, in, a, -1); c.say("# built as: " + a.how + "\n");
    for (int i = 0; i < in.npar(); ++i) { ci->ud = cloog_union_domain_set_name(ci->ud, CLOOG_PARAM, i, in.pname(i).c_str()); }
    root = cloog_clast_create_from_input(ci, L.o);
    for (auto &v : keep) runMon(c, root, in, v, pnames(in), byNumber, "built as: " + a.how);
    c.st["big_through_interface"]++;
    string t = printAst(root, L.o); c.hash = hstr(t); c.nontrivial = total > 0; c.sample = t.substr(0, 400); c.st["programs"]++;
    cloog_clast_free(root);
    return;
  }
  root = generate(L, in.text);
  string text = printAst(root, L.o);
  c.say("/*\n" + text + "*/\n");
  vector<TS> prog = CodeParser::parse(text);
  for (auto &v : keep) {
    auto ta = traceAst(root, in, v);
    Expect e = in.expect(v, 60000); Monitor m(e, true, "options" + o.str() + " " + parStr(in, v));
    for (auto &x : ta) m.event(x.s - 1, x.v);
    m.finish();
    vector<Ev> t; TextInterp ip; bindParams(ip.env, in, v);
    ip.onCall = [&](const string &n, const Vec &w) { t.push_back({atoi(n.c_str() + 1), w}); };
    ip.run(prog);
    string d = traceDiff(ta, t); if (!d.empty()) viol("AST and printed code differ: " + d);
    c.st["instances"] += m.seen;
  }
  long digits = 0; for (size_t i = 0, k = 0; i < text.size(); ++i) { if (isdigit((unsigned char)text[i])) { if (++k == 19) ++digits; } else k = 0; }
  c.st["numbers_of_19_digits_or_more"] += digits; if (digits) c.st["programs_with_huge_numbers"]++;
  c.st["programs"]++;
  cloog_clast_free(root);
  c.hash = hstr(text); c.nontrivial = total > 0 && digits > 0;
  if (c.nontrivial) c.sample = text.substr(0, 400);
}

// -------------------------------------------------------------- AST queries
static void collect(clast_stmt *s, vector<clast_for *> &loops, std::map<clast_for *, std::set<int>> &under, vector<clast_for *> &stack, std::set<int> &all) {
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_user)) { int n = ((clast_user_stmt *)s)->statement->number; all.insert(n); for (auto f : stack) under[f].insert(n); }
    else if (CLAST_STMT_IS_A(s, stmt_block)) collect(((clast_block *)s)->body, loops, under, stack, all);
    else if (CLAST_STMT_IS_A(s, stmt_guard)) collect(((clast_guard *)s)->then, loops, under, stack, all);
    else if (CLAST_STMT_IS_A(s, stmt_for)) { auto *f = (clast_for *)s; loops.push_back(f); stack.push_back(f); collect(f->body, loops, under, stack, all); stack.pop_back(); }
  }
}
static void filterOnce(Case &c, clast_stmt *root, Rng &g, int ns) {
  vector<clast_for *> loops, stack; std::map<clast_for *, std::set<int>> under; std::set<int> all;
  collect(root, loops, under, stack, all);
  std::set<int> want; string iter; const char *it = nullptr;
  if (!loops.empty() && g.p(0.6)) { iter = loops[g.in(0, loops.size() - 1)]->iterator; it = iter.c_str(); }
  else if (g.p(0.15)) it = "nosuch";
  int kind = g.in(0, 3);
  if (kind == 0) for (int i = 1; i <= ns; ++i) want.insert(i);
  else if (kind == 1 && !loops.empty()) want = under[loops[g.in(0, loops.size() - 1)]];
  else for (int i = 1; i <= ns; ++i) if (g.p(0.6)) want.insert(i);
  vector<int> w(want.begin(), want.end());
  for (size_t i = w.size(); i > 1; --i) std::swap(w[i - 1], w[g.in(0, i - 1)]);
  bool noFilter = g.p(0.15);
  ClastFilter f = {it, noFilter ? nullptr : w.data(), (int)w.size(), g.p(0.5) ? exact : subset};
  if (w.empty() && !noFilter) return;
  clast_for **L; int nl, *S, n;
  clast_filter(root, f, &L, &nl, &S, &n);
  std::set<clast_for *> got(L, L + nl), exp; std::set<int> gs(S, S + n);
  if ((int)got.size() != nl) viol("clast_filter lists a loop twice");
  if ((int)gs.size() != n) viol("clast_filter lists a statement twice");
  for (auto *l : loops) {
    if (it && strcmp(l->iterator, it)) continue;
    auto &u = under[l];
    bool ok = noFilter || (f.filter_type == exact ? u == want : std::includes(want.begin(), want.end(), u.begin(), u.end()));
    if (ok) exp.insert(l);
  }
  if (gs != all) viol(fmt("clast_filter found %zu of the %zu statements of the code", gs.size(), all.size()));
  for (auto *l : exp) if (!got.count(l)) viol(fmt("clast_filter missed a loop on %s", l->iterator));
  for (auto *l : got) if (!exp.count(l)) viol(fmt("clast_filter returned a loop on %s that does not match", l->iterator));
  c.st["filters"]++; c.st["loops_matched"] += exp.size(); c.st["loops_seen"] += loops.size();
  free(L); free(S);
}
MODE(filter) {
  InstCfg cfg; cfg.gen.maxStmt = 5;
  Inst in = makeInst(c, cfg);
  Opt o = genOpt(c.g, in, true); if (c.g.p(0.5)) o.esp = 0;
  c.say(in.text + "# options:" + o.str() + "\n");
  Lib L; o.apply(L.o);
  clast_stmt *root = generate(L, in.text);
  c.say("/*\n" + printAst(root, L.o) + "*/\n");
  for (int k = 0; k < 6; ++k) filterOnce(c, root, c.g, in.p().st.size());
  AstStats a; astStats(root, a);
  c.st["ast_for"] += a.fors; c.st["ast_assignment"] += a.asss; c.st["ast_block"] += a.blocks; c.st["ast_guard"] += a.guards;
  c.hash = hstr(in.text + o.str()); c.nontrivial = a.fors > 0; c.sample = printAst(root, L.o).substr(0, 300);
  cloog_clast_free(root);
}

// ------------------------------------------------------------------ resources
extern "C" long verif_proc_held(void);
struct Live { string s; long n = 0; };
static void addLive(void *p, size_t n, void *site, void *u) {
  Live *l = (Live *)u; if (l->n++ > 3) return;
  Dl_info d; string w = fmt("%p", site);
  if (dladdr(site, &d) && d.dli_sname) w = d.dli_sname;
  l->s += fmt(" %zu bytes from %s;", n, w.c_str());
}
static string grabF(const std::function<void(FILE *)> &f) { char *b = nullptr; size_t n = 0; FILE *o = open_memstream(&b, &n); f(o); fclose(o); string r(b, n); free(b); return r; }
static const char *SCN[] = {"ast", "program", "api", "read+free", "input+dump", "filter", "domains", "program+structure", "two states", "stop"};
static void scenario(Case &c, int k, Lib &L, const Inst &in, Opt o, Rng &g) {
  switch (k) {
  case 0: { clast_stmt *r = generate(L, in.text); printAst(r, L.o); cloog_clast_free(r); break; }
  case 1: generateText(L, in.text); break;
  case 2: { Api a; CloogInput *i = buildInput(L, g, in, a, in.p().st.size() == 1 && !in.p().nscat && g.p(0.6) ? 4 : g.in(-1, 4)); if (g.p(0.3)) grabF([&](FILE *f) { cloog_input_dump_cloog(f, i, L.o); }); if (g.p(0.2)) cloog_input_free(i); else { clast_stmt *r = cloog_clast_create_from_input(i, L.o); printAst(r, L.o); cloog_clast_free(r); } break; }
  case 3: { StrFile f(in.text); CloogProgram *p = cloog_program_read(f.f, L.o); if (g.p(0.5)) grabF([&](FILE *o) { cloog_program_print(o, p); }); cloog_program_free(p); break; }
  case 4: { StrFile f(in.text); CloogInput *i = cloog_input_read(f.f, L.o); grabF([&](FILE *o) { cloog_input_dump_cloog(o, i, L.o); }); cloog_input_free(i); break; }
  case 5: { clast_stmt *r = generate(L, in.text); for (int t = 0; t < 3; ++t) filterOnce(c, r, g, in.p().st.size()); cloog_clast_free(r); break; }
  case 6: {
    if (in.corpus) break;
    const Problem &p = in.p();
    vector<CloogDomain *> d; for (auto &s : p.st) if (s.dim == p.st[0].dim) d.push_back(buildDomain(L, s.u, p.npar, g.in(0, 1)));
    for (int t = 0; t < 6; ++t) {
      CloogDomain *a = g.pick(d), *b = g.pick(d), *r = nullptr; int dim = cloog_domain_dimension(a);
      switch (g.in(0, 9)) {
      case 0: r = cloog_domain_union(cloog_domain_copy(a), cloog_domain_copy(b)); break;
      case 1: r = cloog_domain_intersection(a, b); break;
      case 2: r = cloog_domain_difference(a, b); break;
      case 3: { CloogDomain *h = cloog_domain_convex(b); r = cloog_domain_simplify(a, h); cloog_domain_free(h); break; }
      case 4: r = cloog_domain_simple_convex(a); break;
      case 5: r = cloog_domain_project(a, g.in(0, dim)); cloog_domain_free(r); r = nullptr; break;
      case 6: { CloogDomain *rest; r = cloog_domain_copy(a); if (!cloog_domain_isempty(r)) { r = cloog_domain_cut_first(r, &rest); cloog_domain_free(rest); } break; }
      case 7: if (dim) { cloog_int_t n; cloog_int_init(n); cloog_int_set_si(n, 0); CloogConstraint *lb; if (cloog_domain_can_unroll(a, g.in(1, dim), &n, &lb)) cloog_constraint_release(lb); cloog_int_clear(n); } break;
      case 8: if (dim && !cloog_domain_isempty(a)) { cloog_int_t s, f; cloog_int_init(s); cloog_int_init(f); cloog_domain_stride(a, g.in(1, dim), &s, &f); cloog_int_clear(s); cloog_int_clear(f); } break;
      case 9: if (dim) r = cloog_domain_following_part(a, a, b, g.in(1, dim)); break;
      }
      if (r) { d.push_back(r); }
    }
    for (auto x : d) cloog_domain_free(x);
    break; }
  case 7: { StrFile f(in.text); CloogProgram *p = cloog_program_read(f.f, L.o); p = cloog_program_generate(p, L.o); grabF([&](FILE *o) { cloog_program_print(o, p); cloog_program_print_structure(o, p, 0); }); cloog_program_free(p); break; }
  case 8: { Lib M; o.apply(M.o); clast_stmt *r = generate(L, in.text), *q = generate(M, in.text); cloog_clast_free(r); printAst(q, M.o); cloog_clast_free(q); break; }
  case 9: { L.o->stop = g.in(0, in.p().nscat + in.p().maxdim()); clast_stmt *r = generate(L, in.text); printAst(r, L.o); cloog_clast_free(r); break; }
  }
}
MODE(mem) {
  InstCfg cfg; cfg.pCorpus = 0.15; cfg.pMut = 0.1;
  int k = c.g.in(0, 9);
  if (k == 2 || k == 6) cfg.pCorpus = cfg.pMut = 0;
  Inst in = makeInst(c, cfg);
  Opt o = genOpt(c.g, in, c.g.p(0.7));
  if (c.g.p(0.1)) o.nosimplify = 0;
  if (c.g.p(0.1)) o.backtrack = 1;
  c.say(in.text + "# options:" + o.str() + " scenario " + SCN[k] + "\n");
  Track t; t.start();
  Rng g0 = c.g;
  CloogState cnt;
  string err;
  {
    CloogState *st = cloog_state_malloc(); CloogOptions *op = cloog_options_malloc(st); op->quiet = 1;
    Lib L0; cloog_options_free(L0.o); cloog_state_free(L0.st); L0.st = st; L0.o = op;
    o.apply(op);
    scenario(c, k, L0, in, o, c.g);
    cnt = *st;
    L0.o = nullptr; L0.st = nullptr;
    err = withStderr([&] { cloog_options_free(op); cloog_state_free(st); });
  }
  t.stop();
  c.st["blocks_watched"] += verif_mem_allocs; c.st["gmp_blocks_watched"] += verif_gmp_allocs - t.ga0;
  c.st["loops_watched"] += cnt.loop_allocated; c.st["domains_watched"] += cnt.domain_allocated;
  Live l; long n = verif_mem_live(addLive, &l);
  if (n) viol(fmt("%ld blocks were never released:", n) + l.s);
  if (!err.empty()) viol("objects were still alive when the state was freed: " + err.substr(0, 200));
  if (verif_gmp_allocs - t.ga0 != verif_gmp_frees - t.gf0) viol(fmt("%ld big integers were never released", (verif_gmp_allocs - t.ga0) - (verif_gmp_frees - t.gf0)));
  auto cmp = [&](const char *w, int a, int f) { if (a != f) viol(fmt("the library counts %d %s allocated and %d freed", a, w, f)); };
  cmp("loops", cnt.loop_allocated, cnt.loop_freed); cmp("blocks", cnt.block_allocated, cnt.block_freed);
  cmp("statements", cnt.statement_allocated, cnt.statement_freed); cmp("domains", cnt.domain_allocated, cnt.domain_freed);
  if (k == 2 || g0.p(0.25)) { // the whole process, isl included, holds no more after doing the same again
    long held[4]; int reps = 0;
    do {
      { Case d; d.asan = c.asan; Rng g = g0; Lib L1; o.apply(L1.o); scenario(d, k, L1, in, o, g); }
      held[reps] = verif_proc_held();
    } while (++reps < 2 || (reps < 4 && held[reps - 1] > held[reps - 2]));
    if (reps == 4 && held[3] > held[2]) viol(fmt("the process holds more and more memory when the same is done again (%s: %ld, %ld, %ld, %ld)", c.asan ? "bytes" : "blocks", held[0], held[1], held[2], held[3]));
    c.st["repetitions_watched"] += reps;
  }
  c.hash = hstr(in.text + o.str() + SCN[k]); c.nontrivial = verif_mem_allocs > 0;
  c.st[string("scenario_") + SCN[k]]++;
  c.sample = fmt("scenario %s, options%s: %ld blocks and %ld big integers allocated and released", SCN[k], o.str().c_str(), verif_mem_allocs, verif_gmp_allocs - t.ga0);
}

// ------------------------------------------------------ determinism, isolation
static string stripTime(const string &t) { size_t n = t.find('\n'); return t.compare(0, 2, "/*") == 0 && n != string::npos ? t.substr(n + 1) : t; }
struct ThreadArg { string in; Opt o; string out; int reps; };
static void *threadGen(void *p) {
  ThreadArg *a = (ThreadArg *)p;
  for (int i = 0; i < a->reps; ++i) { Lib L; a->o.apply(L.o); string t = stripTime(generateText(L, a->in)); if (i == 0) a->out = t; else if (a->out != t) a->out = "differs between repetitions in one thread:\n" + a->out + "\nversus\n" + t; }
  return nullptr;
}
static string childGen(const Inst &in, const Opt &o, int perturb, int junk) {
  int fd[2]; if (pipe(fd)) inconc("pipe");
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    mallopt(M_PERTURB, perturb);
    vector<void *> hold; for (int i = 0; i < junk; ++i) { void *q = malloc(16 + (i * 37) % 4000); memset(q, 0xA5 + i, 16); hold.push_back(q); }
    for (size_t i = 0; i < hold.size(); i += 2) free(hold[i]);
    Lib L; o.apply(L.o);
    string t = stripTime(generateText(L, in.text));
    size_t k = 0; while (k < t.size()) { ssize_t w = write(fd[1], t.data() + k, t.size() - k); if (w <= 0) break; k += w; }
    leave(0);
  }
  close(fd[1]); string r; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
  close(fd[0]); int st; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) inconc("cpu limit in a child");
  if (!WIFEXITED(st) || WEXITSTATUS(st)) viol(fmt("generation in a process with other heap contents ended with status %d", st));
  return r;
}
MODEC(det, 20) {
  InstCfg cfg; cfg.pCorpus = 0.15;
  Inst in = makeInst(c, cfg), other = makeInst(c, cfg);
  Opt o = genOpt(c.g, in, c.g.p(0.5)), oo = genOpt(c.g, other, true);
  c.say(in.text + "# options:" + o.str() + "\n");
  string ref; { Lib L; o.apply(L.o); ref = stripTime(generateText(L, in.text)); }
  auto same = [&](const string &t, const string &what) { c.st["comparisons"]++; if (t != ref) { c.say("/* first\n" + ref + "*/\n/* second\n" + t + "*/\n"); viol("the generated code differs " + what); } };
  { Lib L; o.apply(L.o); same(stripTime(generateText(L, in.text)), "when the same input is given again"); }
  c.say("# other problem:\n" + other.text + "# options:" + oo.str() + "\n");
  { Lib L, M; o.apply(L.o); oo.apply(M.o); // interleaved states
    StrFile f1(in.text), f2(other.text);
    L.o->name = (char *)"case"; M.o->name = (char *)"case";
    CloogProgram *p = cloog_program_read(f1.f, L.o), *q = cloog_program_read(f2.f, M.o);
    q = cloog_program_generate(q, M.o); p = cloog_program_generate(p, L.o);
    grabF([&](FILE *f) { cloog_program_pprint(f, q, M.o); });
    string t = stripTime(grabF([&](FILE *f) { cloog_program_pprint(f, p, L.o); }));
    cloog_program_free(q); cloog_program_free(p); L.o->name = M.o->name = nullptr;
    same(t, "when another problem is handled in between"); }
  { Lib L; L.o->quiet = 1; oo.apply(L.o); clast_stmt *r = generate(L, other.text); cloog_clast_free(r); // one state reused
    CloogOptions *o2 = cloog_options_malloc(L.st); o.apply(o2); o2->quiet = 1; std::swap(L.o, o2);
    string t = stripTime(generateText(L, in.text)); cloog_options_free(o2);
    same(t, "when the state has served another problem before"); }
  same(childGen(in, o, c.g.in(1, 255), 2000), "with other heap contents");
  int nt = 3; pthread_t th[4]; ThreadArg a[4];
  for (int i = 0; i < nt; ++i) { a[i].in = i == 1 ? other.text : in.text; a[i].o = i == 1 ? oo : o; a[i].reps = 3; pthread_create(&th[i], nullptr, threadGen, &a[i]); }
  for (int i = 0; i < nt; ++i) pthread_join(th[i], nullptr);
  same(a[0].out, "when other threads use their own states"); same(a[2].out, "when other threads use their own states");
  c.hash = hstr(in.text + o.str()); c.nontrivial = ref.find("S") != string::npos;
  c.sample = ref.substr(0, 300);
}

// Separate states in separate threads, watched by a race detector.
MODEC(thr, 20) {
  InstCfg cfg; cfg.pCorpus = 0.15;
  const int nt = 4; pthread_t th[nt]; ThreadArg a[nt];
  Inst in[2] = {makeInst(c, cfg), makeInst(c, cfg)}; Opt o[2];
  for (int i = 0; i < 2; ++i) { o[i] = genOpt(c.g, in[i], true); c.say(in[i].text + "# options:" + o[i].str() + "\n"); }
  for (int i = 0; i < nt; ++i) { a[i].in = in[i & 1].text; a[i].o = o[i & 1]; a[i].reps = 2; pthread_create(&th[i], nullptr, threadGen, &a[i]); }
  for (int i = 0; i < nt; ++i) pthread_join(th[i], nullptr);
  for (int i = 2; i < nt; ++i) if (a[i].out != a[i - 2].out) viol("two threads with their own states gave different code for the same problem");
  c.st["thread_generations"] += nt * 2;
  c.hash = hstr(in[0].text + in[1].text); c.nontrivial = true; c.sample = a[0].out.substr(0, 300);
}
