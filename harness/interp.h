// Interpreter of the generated AST (observes executions of the AST).
#pragma once
#include "base.h"
#include <gmp.h>
extern "C" {
#include <cloog/isl/cloog.h>
}
inline I mpz2i(const mpz_t z) {
  char *s = mpz_get_str(NULL, 10, z);
  I r = 0; bool neg = false; char *p = s;
  bool ov = strlen(s) > 36;
  if (!ov) {
    if (*p == '-') neg = true, ++p;
    for (; *p; ++p) r = r * 10 + (*p - '0');
  }
  free(s);
  if (ov) throw Overflow();
  return neg ? -r : r;
}

struct ClastInterp {
  std::map<string, I> env;
  std::function<void(clast_user_stmt *, const Vec &)> onUser;
  std::function<void(clast_for *, I, const std::map<string, I> &)> onIter; // optional
  std::function<void(clast_stmt *)> onStmt;                         // optional
  long steps = 0, maxSteps = 3000000;
  long events = 0, loops = 0, guards = 0, inexactDiv = 0, negMod = 0;
  int depthSeen = 0;

  void step() { if (++steps > maxSteps) throw Inconclusive{"step budget"}; }

  I eval(clast_expr *e) {
    if (!e) throw Violation{"AST expression is missing (NULL)"};
    switch (e->type) {
    case clast_expr_name: {
      const char *n = ((clast_name *)e)->name;
      if (!n) throw Violation{"AST name expression without a name"};
      auto it = env.find(n);
      if (it == env.end()) throw Violation{string("AST reads a variable never given a value: ") + n};
      return it->second;
    }
    case clast_expr_term: {
      clast_term *t = (clast_term *)e;
      I v = mpz2i(t->val);
      if (t->var) v = mulx(v, eval(t->var));
      return v;
    }
    case clast_expr_red: {
      clast_reduction *r = (clast_reduction *)e;
      if (r->n < 1) { if (r->type == clast_red_sum) return 0; throw Violation{"empty min/max reduction in the AST"}; }
      I v = eval(r->elts[0]);
      for (int i = 1; i < r->n; ++i) {
        I w = eval(r->elts[i]);
        if (r->type == clast_red_sum) v = addx(v, w);
        else if (r->type == clast_red_min) v = w < v ? w : v;
        else v = w > v ? w : v;
      }
      return v;
    }
    case clast_expr_bin: {
      clast_binary *b = (clast_binary *)e;
      I l = eval(b->LHS), d = mpz2i(b->RHS);
      if (d == 0) throw Violation{"division by zero in the AST"};
      switch (b->type) {
      case clast_bin_fdiv: return fdiv(l, d);
      case clast_bin_cdiv: return cdiv(l, d);
      case clast_bin_mod: return fmodx(l, d);
      case clast_bin_div: if (l % d != 0) ++inexactDiv; return l / d;
      }
    }
    }
    throw Violation{"unknown expression node in the AST"};
  }
  bool test(clast_equation &q) {
    I l = eval(q.LHS), r = eval(q.RHS);
    if (q.sign && q.LHS->type == clast_expr_bin && ((clast_binary *)q.LHS)->type == clast_bin_mod) {
      I v = eval(((clast_binary *)q.LHS)->LHS);
      if (v < 0 && l != 0) ++negMod;
    }
    return q.sign < 0 ? l <= r : q.sign == 0 ? l == r : l >= r;
  }
  void run(clast_stmt *s, int depth = 0) {
    for (; s; s = s->next) {
      step();
      if (onStmt) onStmt(s);
      if (CLAST_STMT_IS_A(s, stmt_root)) {
      } else if (CLAST_STMT_IS_A(s, stmt_ass)) {
        clast_assignment *a = (clast_assignment *)s;
        if (!a->LHS) throw Violation{"assignment without a target in the AST"};
        I v = eval(a->RHS);
        env[a->LHS] = v;
      } else if (CLAST_STMT_IS_A(s, stmt_user)) {
        clast_user_stmt *u = (clast_user_stmt *)s;
        Vec v;
        for (clast_stmt *t = u->substitutions; t; t = t->next) {
          if (!CLAST_STMT_IS_A(t, stmt_ass)) throw Violation{"substitution is not an assignment"};
          v.push_back(eval(((clast_assignment *)t)->RHS));
        }
        ++events;
        if (onUser) onUser(u, v);
      } else if (CLAST_STMT_IS_A(s, stmt_block)) {
        run(((clast_block *)s)->body, depth + 1);
      } else if (CLAST_STMT_IS_A(s, stmt_for)) {
        clast_for *f = (clast_for *)s;
        ++loops;
        if (!f->LB || !f->UB) throw Violation{string("loop over a bounded set has no ") + (f->LB ? "upper" : "lower") + " bound: " + f->iterator};
        I lo = eval(f->LB), hi = eval(f->UB), st = mpz2i(f->stride);
        if (st <= 0) throw Violation{"loop with non-positive stride"};
        for (I i = lo; i <= hi; i += st) {
          step();
          env[f->iterator] = i;
          if (onIter) onIter(f, i, env);
          run(f->body, depth + 1);
        }
        env.erase(f->iterator);
      } else if (CLAST_STMT_IS_A(s, stmt_guard)) {
        clast_guard *q = (clast_guard *)s;
        ++guards;
        bool ok = true;
        for (int i = 0; i < q->n && ok; ++i) ok = test(q->eq[i]);
        if (ok) run(q->then, depth + 1);
      } else throw Violation{"unknown statement node in the AST"};
    }
  }
};

struct AstStats {
  long fors = 0, guards = 0, users = 0, asss = 0, blocks = 0, mods = 0, strided = 0, minmax = 0, divs = 0, unbounded = 0;
  int depth = 0;
};
inline void exprStats(clast_expr *e, AstStats &a) {
  if (!e) return;
  switch (e->type) {
  case clast_expr_name: break;
  case clast_expr_term: exprStats(((clast_term *)e)->var, a); break;
  case clast_expr_red: { auto *r = (clast_reduction *)e; if (r->type != clast_red_sum && r->n > 1) ++a.minmax; for (int i = 0; i < r->n; ++i) exprStats(r->elts[i], a); break; }
  case clast_expr_bin: { auto *b = (clast_binary *)e; if (b->type == clast_bin_mod) ++a.mods; else ++a.divs; exprStats(b->LHS, a); break; }
  }
}
inline void astStats(clast_stmt *s, AstStats &a, int d = 0) {
  for (; s; s = s->next) {
    if (d > a.depth) a.depth = d;
    if (CLAST_STMT_IS_A(s, stmt_ass)) ++a.asss, exprStats(((clast_assignment *)s)->RHS, a);
    else if (CLAST_STMT_IS_A(s, stmt_user)) {
      ++a.users;
      for (clast_stmt *t = ((clast_user_stmt *)s)->substitutions; t; t = t->next) exprStats(((clast_assignment *)t)->RHS, a);
    } else if (CLAST_STMT_IS_A(s, stmt_block)) ++a.blocks, astStats(((clast_block *)s)->body, a, d);
    else if (CLAST_STMT_IS_A(s, stmt_for)) {
      auto *f = (clast_for *)s; ++a.fors; if (!f->LB || !f->UB) ++a.unbounded;
      exprStats(f->LB, a); exprStats(f->UB, a);
      if (mpz_cmp_si(f->stride, 1) > 0) ++a.strided;
      astStats(f->body, a, d + 1);
    } else if (CLAST_STMT_IS_A(s, stmt_guard)) {
      auto *q = (clast_guard *)s; ++a.guards;
      for (int i = 0; i < q->n; ++i) exprStats(q->eq[i].LHS, a), exprStats(q->eq[i].RHS, a);
      astStats(q->then, a, d);
    }
  }
}
