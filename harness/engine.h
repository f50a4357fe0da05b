// Glue between problems, the library under test and the monitors.
#pragma once
#include "problem.h"
#include "corpus.h"
#include "interp.h"
#include "text.h"
#include <unistd.h>

struct Inst {
  CorpusProblem c; bool corpus = false;
  string text;
  int npar() const { return c.p.npar; }
  const Problem &p() const { return c.p; }
  Expect expect(const Vec &par, long budget = 60000) const { return corpus ? expectCorpus(c, par, budget) : expectOf(c.p, par, budget); }
  void emit() { text = corpus ? emitCorpus(c) : emitCloog(c.p, c.lang); }
  // names as the documentation defines them
  string pname(int i) const { return c.p.pnames ? c.p.pn[i] : string(1, 'M' + i); }
  string iname(int i) const { return c.p.inames ? c.p.in[i] : string(1, 'i' + i); }
};

struct Opt {
  int l = -1, f = 1, stop = -1, strides = 0, sh = 0, first_unroll = -1, esp = 1, fsp = 1, otl = 1, block = 0;
  int backtrack = 0, override_ = 0, noblocks = 0, noscalars = 0, nosimplify = 0, save_domains = 0;
  int compilable = 0, callable = 0;
  vector<int> fs, ls;
  void apply(CloogOptions *o) const {
    o->l = l; o->f = f; o->stop = stop; o->strides = strides; o->sh = sh; o->first_unroll = first_unroll;
    o->esp = esp; o->fsp = fsp; o->otl = otl; o->block = block; o->backtrack = backtrack; o->override = override_;
    o->noblocks = noblocks; o->noscalars = noscalars; o->nosimplify = nosimplify; o->save_domains = save_domains;
    o->compilable = compilable; o->callable = callable; o->quiet = 1;
    if (!fs.empty()) {
      o->fs_ls_size = fs.size();
      o->fs = (int *)malloc(sizeof(int) * fs.size()); o->ls = (int *)malloc(sizeof(int) * ls.size());
      for (size_t i = 0; i < fs.size(); ++i) o->fs[i] = fs[i], o->ls[i] = ls[i];
    }
  }
  string str() const {
    Opt d; string r;
#define P(x, n) if (x != d.x) r += fmt(" -%s %d", n, x);
    P(l, "l") P(f, "f") P(stop, "stop") P(strides, "strides") P(sh, "sh") P(first_unroll, "first-unroll") P(esp, "esp") P(fsp, "fsp") P(otl, "otl") P(block, "block")
    P(backtrack, "backtrack") P(override_, "override") P(noblocks, "noblocks") P(noscalars, "noscalars") P(nosimplify, "nosimplify") P(save_domains, "[save_domains]") P(compilable, "compilable") P(callable, "callable")
#undef P
    if (!fs.empty()) { r += " [fs"; for (int x : fs) r += fmt(" %d", x); r += " ls"; for (int x : ls) r += fmt(" %d", x); r += "]"; }
    return r;
  }
};

// Random options among those documented to preserve the scanned set and the order.
inline Opt genOpt(Rng &g, const Inst &in, bool wide) {
  Opt o;
  int lev = in.p().nscat + in.p().maxdim();
  if (!wide) {
    if (g.p(0.25)) o.strides = 1;
    return o;
  }
  if (g.p(0.5)) o.strides = 1;
  if (g.p(0.35)) o.f = g.p(0.3) ? -1 : g.in(1, lev + 1);
  if (g.p(0.4)) o.l = g.p(0.2) ? -1 : g.in(1, lev + 1);
  if (g.p(0.2)) o.sh = 1;
  if (g.p(0.15)) o.first_unroll = g.in(1, std::max(1, lev));
  if (g.p(0.35)) o.esp = 0;
  if (g.p(0.35)) o.fsp = g.in(1, lev + 1);
  if (g.p(0.35)) o.otl = 0;
  if (g.p(0.3)) o.block = 1;
  if (g.p(0.25)) o.noblocks = 1;
  if (g.p(0.25)) o.noscalars = 1;
  if (g.p(0.15)) o.save_domains = 1;
  return o;
}

struct Lib { // one state, freed at the end
  CloogState *st = nullptr; CloogOptions *o = nullptr;
  Lib() { st = cloog_state_malloc(); o = cloog_options_malloc(st); o->quiet = 1; }
  ~Lib() { if (o) cloog_options_free(o); if (st) cloog_state_free(st); }
};
inline FILE *memfile(const string &s) {
  FILE *f = tmpfile();
  fwrite(s.data(), 1, s.size(), f); rewind(f);
  return f;
}
inline clast_stmt *generate(Lib &L, const string &text) {
  FILE *f = memfile(text);
  CloogInput *in = cloog_input_read(f, L.o);
  fclose(f);
  return cloog_clast_create_from_input(in, L.o);
}
// Text printed for a problem through the path used by the command-line tool.
inline string generateText(Lib &L, const string &text) {
  FILE *f = memfile(text);
  L.o->name = (char *)"case";
  CloogProgram *p = cloog_program_read(f, L.o);
  fclose(f);
  p = cloog_program_generate(p, L.o);
  char *buf = nullptr; size_t n = 0;
  FILE *out = open_memstream(&buf, &n);
  cloog_program_pprint(out, p, L.o);
  fclose(out);
  string r(buf, n);
  free(buf);
  cloog_program_free(p);
  L.o->name = nullptr;
  return r;
}
inline string printAst(clast_stmt *root, CloogOptions *o) {
  char *buf = nullptr; size_t n = 0;
  FILE *out = open_memstream(&buf, &n);
  clast_pprint(out, root, 0, o);
  fclose(out);
  string r(buf, n); free(buf);
  return r;
}

// Online monitor of one execution against the expected instances.
struct Monitor {
  Expect &e; bool order; string where;
  bool have = false; Vec last; int lastS = -1; Vec lastPt;
  long seen = 0, ordered = 0;
  Monitor(Expect &e, bool order, const string &w) : e(e), order(order), where(w) {}
  void event(int stmt /*0-based*/, const Vec &pt) {
    if (stmt < 0 || stmt >= (int)e.st.size()) throw Violation{fmt("%s: unknown statement %d executed", where.c_str(), stmt + 1)};
    auto it = e.st[stmt].find(pt);
    if (it == e.st[stmt].end()) throw Violation{fmt("%s: S%d%s executed but it is not a point of the domain", where.c_str(), stmt + 1, vstr(pt).c_str())};
    if (it->second.seen) throw Violation{fmt("%s: S%d%s executed twice", where.c_str(), stmt + 1, vstr(pt).c_str())};
    it->second.seen = true; ++seen;
    if (order && e.dated) {
      const Vec &d = it->second.date;
      if (have && d < last) throw Violation{fmt("%s: S%d%s dated %s executed after S%d%s dated %s", where.c_str(), stmt + 1, vstr(pt).c_str(), vstr(d).c_str(), lastS + 1, vstr(lastPt).c_str(), vstr(last).c_str())};
      if (have && last < d) ++ordered;
      last = d; have = true; lastS = stmt; lastPt = pt;
    }
  }
  void finish() {
    if (seen == e.total) return;
    for (size_t s = 0; s < e.st.size(); ++s) for (auto &x : e.st[s]) if (!x.second.seen)
      throw Violation{fmt("%s: S%d%s is a point of the domain and was never executed", where.c_str(), (int)s + 1, vstr(x.first).c_str())};
  }
};
inline string parStr(const Inst &in, const Vec &par) {
  string r; for (int i = 0; i < in.npar(); ++i) r += (i ? "," : "") + in.pname(i) + "=" + istr(par[i]);
  return "[" + r + "]";
}
