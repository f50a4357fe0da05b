// Parser and interpreter of the printed code (C pseudo-code and FORTRAN).
#pragma once
#include "base.h"
#include <memory>

struct TExpr; typedef std::shared_ptr<TExpr> TE;
struct TExpr { string op; I val = 0; string name; vector<TE> a; };
struct TStmt; typedef std::shared_ptr<TStmt> TS;
struct TStmt {
  enum K { FOR, IF, ASG, CALL, BLK } k;
  string name; TE lb, ub; I step = 1; vector<TE> cond; TE rhs; vector<TE> args; vector<TS> body;
  bool noLB = false, noUB = false;
};
struct SyntaxErr { string what; };

struct Lexer {
  vector<string> tok;
  Lexer(const string &s) {
    size_t i = 0, n = s.size();
    while (i < n) {
      unsigned char c = s[i];
      if (isspace(c)) { ++i; continue; }
      if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i); if (e == string::npos) throw SyntaxErr{"unterminated comment"}; i = e + 2; continue; }
      if (c == '#') { while (i < n && s[i] != '\n') ++i; continue; }
      if (isalpha(c) || c == '_') { size_t b = i; while (i < n && (isalnum((unsigned char)s[i]) || s[i] == '_')) ++i; tok.push_back(s.substr(b, i - b)); continue; }
      if (isdigit(c)) { size_t b = i; while (i < n && isdigit((unsigned char)s[i])) ++i; if (i < n && (isalpha((unsigned char)s[i]) || s[i] == '_')) throw SyntaxErr{"bad number"}; tok.push_back(s.substr(b, i - b)); continue; }
      static const char *two[] = {"<=", ">=", "==", "&&", "++", "--", "+=", "-=", "!=", "||"};
      bool m = false;
      for (auto t : two) if (s.compare(i, 2, t) == 0) { tok.push_back(t); i += 2; m = true; break; }
      if (m) continue;
      tok.push_back(string(1, c)); ++i;
    }
  }
};

struct ExprParser {
  const vector<string> &t; size_t p; bool fortran;
  ExprParser(const vector<string> &t, size_t p, bool f) : t(t), p(p), fortran(f) {}
  string peek(int k = 0) const { return p + k < t.size() ? t[p + k] : string(""); }
  void want(const string &x) { if (peek() != x) throw SyntaxErr{"expected '" + x + "' near '" + peek() + "'"}; ++p; }
  static bool isnum(const string &s) { return !s.empty() && isdigit((unsigned char)s[0]); }
  static bool isid(const string &s) { return !s.empty() && (isalpha((unsigned char)s[0]) || s[0] == '_'); }
  TE mk(const string &op, vector<TE> a) { TE e(new TExpr); e->op = op; e->a = a; return e; }
  TE primary() {
    string x = peek();
    if (x == "(") { ++p; TE e = sum(); want(")"); return e; }
    if (isnum(x)) {
      ++p; TE e(new TExpr); e->op = "num";
      if (x.size() > 36) throw Overflow();
      for (char c : x) e->val = e->val * 10 + (c - '0');
      return e;
    }
    if (isid(x)) {
      ++p;
      if (peek() == "(") {
        ++p;
        vector<TE> a;
        if (fortran && (x == "FLOOR" || x == "CEILING")) {
          want("REAL"); want("("); a.push_back(sum()); want(")"); want("/");
          want("REAL"); want("("); a.push_back(sum()); want(")"); want(")");
          return mk(x, a);
        }
        if (peek() != ")") { a.push_back(sum()); while (peek() == ",") { ++p; a.push_back(sum()); } }
        want(")");
        static const std::set<string> cf = {"min", "max", "floord", "ceild"}, ff = {"MIN", "MAX", "MOD"};
        if (!(fortran ? ff : cf).count(x)) throw SyntaxErr{"unknown function " + x};
        bool mm = x == "MIN" || x == "MAX";
        if (mm ? a.size() < 2 : a.size() != 2) throw SyntaxErr{"wrong number of arguments of " + x};
        return mk(x, a);
      }
      TE e(new TExpr); e->op = "var"; e->name = x; return e;
    }
    throw SyntaxErr{"expression expected near '" + x + "'"};
  }
  TE unary() {
    if (peek() == "-") { ++p; return mk("neg", {unary()}); }
    if (peek() == "+" ) throw SyntaxErr{"stray unary +"};
    return primary();
  }
  TE mul() {
    // In FORTRAN unary minus binds weaker than '*' and '/' and may not follow an operator.
    TE e = fortran ? primary() : unary();
    for (;;) {
      string x = peek();
      if (x == "*" || x == "/" || (x == "%" && !fortran)) { ++p; TE r = fortran ? primary() : unary(); e = mk(x, {e, r}); }
      else return e;
    }
  }
  TE sum() {
    TE e;
    if (fortran && peek() == "-") { ++p; e = mk("neg", {mul()}); } else e = mul();
    for (;;) {
      string x = peek();
      if (x == "+" || x == "-") { ++p; TE r = mul(); e = mk(x, {e, r}); }
      else return e;
    }
  }
  TE rel() {
    TE l = sum();
    string o = peek();
    if (o != "<=" && o != ">=" && o != "==") throw SyntaxErr{"comparison expected near '" + o + "'"};
    ++p;
    TE r = sum();
    return mk(o, {l, r});
  }
  // "(rel)" or "((rel) && (rel) ...)"
  vector<TE> cond() {
    vector<TE> r;
    want("(");
    // decide: conjunction iff the text is "( ( rel ) && ..."
    size_t save = p;
    if (peek() == "(") {
      try {
        vector<TE> q;
        for (;;) {
          want("("); q.push_back(rel()); want(")");
          if (fortran ? (peek() == "." && peek(1) == "AND" && peek(2) == ".") : peek() == "&&") { p += fortran ? 3 : 1; continue; }
          break;
        }
        want(")");
        return q;
      } catch (SyntaxErr &) { p = save; }
    }
    r.push_back(rel());
    want(")");
    return r;
  }
};

struct CodeParser {
  vector<string> t; size_t p = 0;
  string peek(int k = 0) const { return p + k < t.size() ? t[p + k] : string(""); }
  void want(const string &x) { if (peek() != x) throw SyntaxErr{"expected '" + x + "' near '" + peek() + "' (token " + std::to_string(p) + ")"}; ++p; }
  TE expr() { ExprParser e(t, p, false); TE r = e.sum(); p = e.p; return r; }
  vector<TS> block() { want("{"); vector<TS> b; while (peek() != "}") { if (p >= t.size()) throw SyntaxErr{"unclosed block"}; b.push_back(stmt()); } ++p; return b; }
  TS stmt() {
    TS s(new TStmt);
    string x = peek();
    if (x == "{") { s->k = TStmt::BLK; s->body = block(); return s; }
    if (x == "for") {
      s->k = TStmt::FOR; ++p; want("(");
      if (peek() == ";") s->noLB = true;
      else { s->name = peek(); ++p; want("="); s->lb = expr(); }
      want(";");
      if (peek() == ";") s->noUB = true;
      else {
        if (s->noLB) s->name = peek();
        if (peek() != s->name) throw SyntaxErr{"loop tests another variable"};
        ++p; want("<="); s->ub = expr();
      }
      want(";");
      if (s->noLB && s->noUB) s->name = peek();
      if (peek() != s->name) throw SyntaxErr{"loop steps another variable"};
      ++p;
      if (peek() == "++") ++p;
      else {
        want("+=");
        if (!ExprParser::isnum(peek())) throw SyntaxErr{"bad stride"};
        TE e = expr(); s->step = e->val;
      }
      want(")"); s->body = block(); return s;
    }
    if (x == "if") {
      s->k = TStmt::IF; ++p;
      ExprParser e(t, p, false); s->cond = e.cond(); p = e.p;
      s->body = block(); return s;
    }
    if (!ExprParser::isid(x)) throw SyntaxErr{"statement expected near '" + x + "'"};
    if (peek(1) == "=") { s->k = TStmt::ASG; s->name = x; p += 2; s->rhs = expr(); want(";"); return s; }
    s->k = TStmt::CALL; s->name = x; ++p; want("(");
    if (peek() != ")") { s->args.push_back(expr()); while (peek() == ",") { ++p; s->args.push_back(expr()); } }
    want(")"); want(";");
    return s;
  }
  static vector<TS> parse(const string &txt) {
    CodeParser c; c.t = Lexer(txt).tok;
    vector<TS> r;
    while (c.p < c.t.size()) r.push_back(c.stmt());
    return r;
  }
};

struct FortranParser {
  vector<vector<string>> lines; size_t ln = 0;
  static vector<TS> parse(const string &txt) {
    FortranParser f;
    std::istringstream is(txt);
    string l;
    while (std::getline(is, l)) {
      size_t b = l.find_first_not_of(" \t");
      if (b == string::npos || l[b] == '!') continue;
      auto v = Lexer(l).tok;
      if (!v.empty()) f.lines.push_back(v);
    }
    auto r = f.list("");
    return r;
  }
  bool isEnd(const vector<string> &l) { return l.size() >= 2 && l[0] == "END" && (l[1] == "DO" || l[1] == "IF"); }
  vector<TS> list(const string &closer) {
    vector<TS> r;
    for (;;) {
      if (ln >= lines.size()) { if (!closer.empty()) throw SyntaxErr{"missing END " + closer}; return r; }
      auto &l = lines[ln];
      if (isEnd(l)) {
        if (l.size() != 2 || l[1] != closer) throw SyntaxErr{"unexpected END " + l[1]};
        ++ln; return r;
      }
      r.push_back(stmt());
    }
  }
  TS stmt() {
    auto l = lines[ln++];
    TS s(new TStmt);
    if (l[0] == "DO" && l.size() > 2 && l[2] == "=") {
      s->k = TStmt::FOR; s->name = l[1];
      ExprParser e(l, 3, true);
      s->lb = e.sum(); e.want(","); s->ub = e.sum();
      if (e.peek() == ",") { ++e.p; if (!ExprParser::isnum(e.peek())) throw SyntaxErr{"bad stride"}; s->step = e.sum()->val; }
      if (e.p != l.size()) throw SyntaxErr{"trailing text on DO line near '" + e.peek() + "'"};
      s->body = list("DO");
      return s;
    }
    if (l[0] == "IF") {
      s->k = TStmt::IF;
      ExprParser e(l, 1, true);
      s->cond = e.cond();
      e.want("THEN");
      if (e.p != l.size()) throw SyntaxErr{"trailing text on IF line"};
      s->body = list("IF");
      return s;
    }
    if (!ExprParser::isid(l[0])) throw SyntaxErr{"statement expected near '" + l[0] + "'"};
    if (l.size() > 1 && l[1] == "=") {
      s->k = TStmt::ASG; s->name = l[0];
      ExprParser e(l, 2, true); s->rhs = e.sum();
      if (e.p != l.size()) throw SyntaxErr{"trailing text after assignment"};
      return s;
    }
    s->k = TStmt::CALL; s->name = l[0];
    ExprParser e(l, 1, true);
    e.want("(");
    if (e.peek() != ")") { s->args.push_back(e.sum()); while (e.peek() == ",") { ++e.p; s->args.push_back(e.sum()); } }
    e.want(")");
    if (e.p != l.size()) throw SyntaxErr{"trailing text after statement"};
    return s;
  }
};

struct TextInterp {
  std::map<string, I> env;
  std::function<void(const string &, const Vec &)> onCall;
  long steps = 0, maxSteps = 3000000, events = 0, negMod = 0;
  bool fortran = false;
  // "e % m <= b" with e < 0: the printed operators truncate where a floor is
  // meant (known finding); the meant value is used and the event counted.
  I modLhs(const TE &e, bool ineq) {
    if (ineq && (e->op == "%" || e->op == "MOD")) {
      I l = eval(e->a[0]), r = eval(e->a[1]);
      if (r > 0 && l < 0 && l % r != 0) { ++negMod; return fmodx(l, r); }
    }
    return eval(e);
  }
  I eval(const TE &e) {
    const string &o = e->op;
    if (o == "num") return e->val;
    if (o == "var") { auto it = env.find(e->name); if (it == env.end()) throw Violation{"printed code reads a variable never given a value: " + e->name}; return it->second; }
    if (o == "neg") return -eval(e->a[0]);
    I l = modLhs(e->a[0], o == "<=" || o == ">=");
    if (o == "MIN" || o == "MAX") {
      for (size_t i = 1; i < e->a.size(); ++i) { I r = eval(e->a[i]); l = o == "MIN" ? std::min(l, r) : std::max(l, r); }
      return l;
    }
    I r = eval(e->a[1]);
    if (o == "+") return addx(l, r);
    if (o == "-") return addx(l, -r);
    if (o == "*") return mulx(l, r);
    if (o == "min") return l < r ? l : r;
    if (o == "max") return l > r ? l : r;
    if (o == "<=") return l <= r;
    if (o == ">=") return l >= r;
    if (o == "==") return l == r;
    if (r == 0) throw Violation{"division by zero in the printed code"};
    if (o == "/") return l / r;
    if (o == "%" || o == "MOD") return l % r;
    if (o == "floord" || o == "FLOOR") return fdiv(l, r);
    if (o == "ceild" || o == "CEILING") return cdiv(l, r);
    throw SyntaxErr{"operator " + o};
  }
  void run(const vector<TS> &b) {
    for (auto &s : b) {
      if (++steps > maxSteps) throw Inconclusive{"step budget"};
      switch (s->k) {
      case TStmt::BLK: run(s->body); break;
      case TStmt::ASG: env[s->name] = eval(s->rhs); break;
      case TStmt::IF: { bool ok = true; for (auto &c : s->cond) if (!eval(c)) { ok = false; break; } if (ok) run(s->body); break; }
      case TStmt::CALL: { Vec v; for (auto &a : s->args) v.push_back(eval(a)); ++events; if (onCall) onCall(s->name, v); break; }
      case TStmt::FOR: {
        if (s->noLB || s->noUB) throw Violation{"printed loop over a bounded set has no bound: " + s->name};
        if (s->step <= 0) throw Violation{"printed loop has a non-positive stride"};
        if (!fortran) { // the bound is evaluated again for each iteration
          for (env[s->name] = eval(s->lb); env[s->name] <= eval(s->ub); env[s->name] += s->step) { if (++steps > maxSteps) throw Inconclusive{"step budget"}; run(s->body); }
          break;
        }
        I lo = eval(s->lb), hi = eval(s->ub);
        for (I i = lo; i <= hi; i += s->step) { if (++steps > maxSteps) throw Inconclusive{"step budget"}; env[s->name] = i; run(s->body); }
        break;
      }
      }
    }
  }
};
