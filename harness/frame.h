// Frame of the monitor program: one monitored case per child process.
#pragma once
#include "engine.h"
#include <unistd.h>

struct Case {
  string mode; uint64_t seed = 0; long idx = 0;
  Rng g;
  string desc;                       // everything needed to redo the case by hand
  std::map<string, long> st;         // what the monitors observed
  uint64_t hash = 0; bool nontrivial = false;
  string sample;
  string scratch;                    // private directory of this worker
  bool asan = false;
  string repo;
  void say(const string &s);         // append to the description (survives crashes)
};
typedef void (*ModeFn)(Case &);
struct ModeReg { ModeReg(const char *name, ModeFn f, int cpu = 10); };
extern std::map<string, std::pair<ModeFn, int>> &modes();
#define MODE(name) static void mode_##name(Case &c); static ModeReg reg_##name(#name, mode_##name); static void mode_##name(Case &c)
#define MODEC(name, cpu) static void mode_##name(Case &c); static ModeReg reg_##name(#name, mode_##name, cpu); static void mode_##name(Case &c)

extern "C" void __gcov_dump(void) __attribute__((weak));
[[noreturn]] inline void leave(int st) { if (__gcov_dump) __gcov_dump(); _exit(st); }
[[noreturn]] inline void viol(const string &s) { throw Violation{s}; }
[[noreturn]] inline void inconc(const string &s) { throw Inconclusive{s}; }

struct InstCfg { double pCorpus = 0.15, pMut = 0.2; GenCfg gen; bool needScat = false; int maxText = 4000; };
Inst makeInst(Case &c, const InstCfg &cfg);
const vector<string> &corpusFiles(const string &repo);
vector<Vec> paramsFor(Case &c, const Inst &in, int want);

// Loops and assignments inside each other use names of increasing position in the list given.
inline long checkNesting(clast_stmt *s, const vector<string> &order, int above = -1) {
  long n = 0; int last = above; // an assignment is followed by what it governs
  for (; s; s = s->next) {
    const char *nm = nullptr; clast_stmt *in = nullptr;
    if (CLAST_STMT_IS_A(s, stmt_ass)) nm = ((clast_assignment *)s)->LHS;
    else if (CLAST_STMT_IS_A(s, stmt_for)) { nm = ((clast_for *)s)->iterator; in = ((clast_for *)s)->body; }
    else if (CLAST_STMT_IS_A(s, stmt_guard)) { n += checkNesting(((clast_guard *)s)->then, order, above); continue; }
    else if (CLAST_STMT_IS_A(s, stmt_block)) { n += checkNesting(((clast_block *)s)->body, order, above); continue; }
    if (!nm) continue;
    int k = -1; for (size_t i = 0; i < order.size(); ++i) if (order[i] == nm) k = i;
    if (k < 0) viol(string("the code uses an iterator name that was never given: ") + nm);
    if (k <= above) viol(string("iterator ") + nm + " is used inside " + order[above] + ", against the order of the dimensions");
    ++n; (void)last;
    if (in) n += checkNesting(in, order, k);
  }
  return n;
}
// AST run for one parameter valuation under the monitor
struct Ev { int s; Vec v; bool operator==(const Ev &o) const { return s == o.s && v == o.v; } bool operator<(const Ev &o) const { return s != o.s ? s < o.s : v < o.v; } };
void bindParams(std::map<string, I> &env, const Inst &in, const Vec &par);
vector<Ev> traceAst(clast_stmt *root, const Inst &in, const Vec &par, long maxSteps = 3000000);
string traceDiff(const vector<Ev> &a, const vector<Ev> &b); // empty when equal
