// Loop annotations set on the tree by the caller (parallel loops, vector loops,
// distributed loops, timers): the printed C is the same program, each pragma
// stands in front of the loop it belongs to, and nothing else is annotated.
#include "frame.h"

struct LoopRef { clast_for *f; bool par, vec; }; // on the path above: a loop using lbp/ubp, one using lbv/ubv
static void annotate(clast_stmt *s, bool par, bool vec, const std::function<void(clast_for *, bool &, bool &)> &fn) {
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_for)) { bool p = par, v = vec; fn((clast_for *)s, p, v); annotate(((clast_for *)s)->body, p, v, fn); }
    else if (CLAST_STMT_IS_A(s, stmt_guard)) annotate(((clast_guard *)s)->then, par, vec, fn);
    else if (CLAST_STMT_IS_A(s, stmt_block)) annotate(((clast_block *)s)->body, par, vec, fn);
  }
}
static void forsOf(clast_stmt *s, vector<clast_for *> &o) {
  for (; s; s = s->next) {
    if (CLAST_STMT_IS_A(s, stmt_for)) { o.push_back((clast_for *)s); forsOf(((clast_for *)s)->body, o); }
    else if (CLAST_STMT_IS_A(s, stmt_guard)) forsOf(((clast_guard *)s)->then, o);
    else if (CLAST_STMT_IS_A(s, stmt_block)) forsOf(((clast_block *)s)->body, o);
  }
}
static string squeeze(const string &s) { string r; std::istringstream is(s); string w; while (is >> w) { if (!r.empty()) r += ' '; r += w; } return r; }
// Pragmas, timers and the distribution call become calls that the parser knows.
static string prepare(const string &text, vector<string> &marks) {
  std::istringstream is(text); string l, out;
  while (std::getline(is, l)) {
    size_t b = l.find_first_not_of(" \t");
    string t = b == string::npos ? "" : l.substr(b);
    size_t hash = t.find("#pragma");
    if (hash == 0) { out += fmt("MARK_%zu();\n", marks.size()); marks.push_back(squeeze(t)); continue; }
    if (hash != string::npos) viol("a pragma does not start its line: " + l);
    size_t k = t.find("IF_TIME(");
    if (k == 0) { out += fmt("MARK_%zu();\n", marks.size()); marks.push_back(squeeze(t)); continue; }
    if (k != string::npos) viol("a timer does not start its line: " + l);
    if (t.compare(0, 17, "polyrt_loop_dist(") == 0) {
      if (squeeze(t) != "polyrt_loop_dist(_lb_dist, _ub_dist, nprocs, my_rank, &lbp, &ubp);") viol("unknown distribution call: " + t);
      out += "lbp=_lb_dist; ubp=_ub_dist;\n"; continue;
    }
    out += l + "\n";
  }
  return out;
}
static string markOf(const TS &s, const vector<string> &marks) { if (s->k != TStmt::CALL || s->name.compare(0, 5, "MARK_")) return ""; return marks[atoi(s->name.c_str() + 5)]; }
struct Seen { vector<string> before, after; string it; bool lb = false, ub = false; };
static void loopsOf(const vector<TS> &b, const vector<string> &marks, vector<Seen> &o, long &nmarks) {
  for (size_t i = 0; i < b.size(); ++i) {
    if (!markOf(b[i], marks).empty()) ++nmarks;
    if (b[i]->k == TStmt::FOR) {
      Seen s; s.it = b[i]->name;
      for (size_t j = i; j-- > 0;) {
        string m = markOf(b[j], marks);
        if (!m.empty()) { s.before.insert(s.before.begin(), m); if (m.compare(0, 7, "IF_TIME") == 0 && m.find("_start = ") != string::npos) break; continue; }
        if (b[j]->k == TStmt::ASG && (b[j]->name == "lbp" || b[j]->name == "lbv" || b[j]->name == "ubp" || b[j]->name == "ubv" || b[j]->name == "_lb_dist" || b[j]->name == "_ub_dist")) continue;
        break;
      }
      // a timer that ends another loop is not ours
      while (!s.before.empty() && s.before[0].find(" += cloog_util_rtclock") != string::npos) s.before.erase(s.before.begin());
      if (i + 1 < b.size()) { string m = markOf(b[i + 1], marks); if (m.find(" += cloog_util_rtclock") != string::npos) s.after.push_back(m); }
      o.push_back(s);
      loopsOf(b[i]->body, marks, o, nmarks);
    } else loopsOf(b[i]->body, marks, o, nmarks);
  }
}
MODE(par) {
  Rng &g = c.g;
  InstCfg cfg; cfg.pCorpus = 0.12;
  Inst in = makeInst(c, cfg); in.c.lang = 'c'; in.emit();
  Opt o = genOpt(g, in, g.p(0.4));
  c.say(in.text + "# options:" + o.str() + "\n");
  auto pars = paramsFor(c, in, 3); vector<Vec> keep; long total = 0;
  for (auto &v : pars) { try { total += in.expect(v, 40000).total; keep.push_back(v); } catch (TooBig &) {} }
  if (keep.empty()) inconc("nothing to enumerate");
  Lib L; o.apply(L.o);
  clast_stmt *root = generate(L, in.text);
  string base = printAst(root, L.o);
  vector<vector<Ev>> ta; for (auto &v : keep) ta.push_back(traceAst(root, in, v));
  std::map<clast_for *, vector<string>> before, after; long want = 0, annotated = 0;
  double rate = 0.2 + 0.15 * g.in(0, 4);
  auto word = [&](const char *p) { return fmt("%s%d", p, (int)g.in(0, 99)); };
  annotate(root, false, false, [&](clast_for *f, bool &par, bool &vec) {
    if (!f->LB || !f->UB || !g.p(rate)) return;
    string pr, rd; vector<string> b, a;
    if (g.p(0.5)) { pr = word("p"); while (g.p(0.4)) pr += "," + word("q"); f->private_vars = strdup(pr.c_str()); }
    if (g.p(0.3)) { rd = "+:" + word("r"); f->reduction_vars = strdup(rd.c_str()); }
    string dir = "omp parallel for";
    int fl = 0;
    if (!par && g.p(0.6)) {
      int k = g.in(0, 5);
      fl = k == 0 ? CLAST_PARALLEL_OMP : k == 1 ? CLAST_PARALLEL_OMP | CLAST_PARALLEL_USER : k == 2 ? CLAST_PARALLEL_MPI : k == 3 ? CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI : k == 4 ? CLAST_PARALLEL_OMP | CLAST_PARALLEL_VEC : CLAST_PARALLEL_OMP | CLAST_PARALLEL_MPI | CLAST_PARALLEL_VEC;
      par = true;
      if (fl & CLAST_PARALLEL_USER) { if (g.p(0.7)) { dir = word("vendor") + " " + word("go"); f->user_directive = strdup(dir.c_str()); } }
      if (fl & CLAST_PARALLEL_OMP) b.push_back("#pragma " + dir + (pr.empty() ? "" : " private(" + pr + ")") + (rd.empty() ? "" : " reduction(" + rd + ")"));
    } else if (!vec && g.p(0.5)) {
      fl = CLAST_PARALLEL_VEC; vec = true;
      b.push_back("#pragma ivdep"); b.push_back("#pragma vector always");
    }
    f->parallel = fl;
    if (g.p(0.3)) { string t = word("t"); f->time_var_name = strdup(t.c_str()); b.insert(b.begin(), "IF_TIME(" + t + "_start = cloog_util_rtclock());"); a.push_back("IF_TIME(" + t + " += cloog_util_rtclock() - " + t + "_start);"); }
    c.say(fmt("# loop %s at %ld: flags %d private %s reduction %s timer %s directive %s\n", f->iterator, annotated, fl, pr.c_str(), rd.c_str(), f->time_var_name ? f->time_var_name : "-", f->user_directive ? f->user_directive : "-"));
    before[f] = b; after[f] = a; want += b.size() + a.size(); ++annotated;
    c.st[fl & CLAST_PARALLEL_MPI ? "loops_distributed" : fl & CLAST_PARALLEL_OMP ? "loops_parallel" : fl ? "loops_vector" : "loops_other"]++;
    if (f->time_var_name) c.st["loops_timed"]++;
  });
  string text = printAst(root, L.o);
  c.say("/*\n" + text + "*/\n");
  vector<clast_for *> fors; forsOf(root, fors);
  vector<string> marks; string prep = prepare(text, marks);
  vector<TS> prog = CodeParser::parse(prep);
  vector<Seen> seen; long n = 0; loopsOf(prog, marks, seen, n);
  if (seen.size() != fors.size()) viol(fmt("%zu loops in the tree, %zu in the text", fors.size(), seen.size()));
  if (n != want) viol(fmt("%ld pragmas and timers printed, %ld asked for", n, want));
  for (size_t i = 0; i < fors.size(); ++i) {
    auto show = [](const vector<string> &v) { string r; for (auto &x : v) r += "[" + x + "]"; return r; };
    if (seen[i].it != fors[i]->iterator) viol("loops printed in another order");
    if (seen[i].before != before[fors[i]]) viol("in front of loop " + seen[i].it + ": " + show(seen[i].before) + " instead of " + show(before[fors[i]]));
    if (!after[fors[i]].empty() && seen[i].after != after[fors[i]]) viol("after loop " + seen[i].it + ": " + show(seen[i].after) + " instead of " + show(after[fors[i]]));
    c.st["loops_compared"]++;
  }
  for (size_t k = 0; k < keep.size(); ++k) {
    vector<Ev> t; TextInterp ip; bindParams(ip.env, in, keep[k]);
    ip.onCall = [&](const string &nm, const Vec &v) { if (nm.compare(0, 5, "MARK_") == 0) return; if (nm[0] != 'S') viol("unknown call " + nm); t.push_back({atoi(nm.c_str() + 1), v}); };
    ip.run(prog);
    string d = traceDiff(ta[k], t);
    if (!d.empty()) viol("the tree and its annotated text differ for " + parStr(in, keep[k]) + ": " + d);
    c.st["instances"] += t.size();
  }
  // annotations taken away again: the first text
  for (auto f : fors) f->parallel = 0, free(f->time_var_name), f->time_var_name = nullptr;
  if (printAst(root, L.o) != base) viol("the text without annotations has changed");
  cloog_clast_free(root);
  c.hash = hstr(text); c.nontrivial = total > 0 && annotated > 0;
  if (c.nontrivial) c.sample = text.substr(0, 500);
}
