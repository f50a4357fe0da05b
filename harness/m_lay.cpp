// The text of an input: layout (comments, blank lines, white space) and
// notation (PolyLib, extended matrices, isl sets and maps) carry no meaning.
#include "api.h"

struct Noise {
  Rng &g; double rate; bool crlf, longs; long put = 0;
  Noise(Rng &g) : g(g), rate(0.1 + 0.1 * g.in(0, 5)), crlf(g.p(0.15)), longs(g.p(0.2)) {}
  string ws(bool may) { string r; if (!g.p(rate)) return may ? "" : " "; ++put; int n = g.in(1, 4); while (n--) r += g.p(0.7) ? ' ' : '\t'; return r; }
  string words() {
    static const char *w[] = {"1", "0", "-3", "c", "f", "i", "N", "#", "comment", "[i]", "->", "{", "}", "0 0 0", "3 4", "2", ";", "\"", "'", "%d"};
    string r; int n = g.in(0, 6); while (n--) r += string(" ") + w[g.in(0, 19)];
    if (longs && g.p(0.15)) { int k = g.in(1, 3) * 1024 + g.in(-12, 12); while ((int)r.size() < k) r += " 1"; }
    return r;
  }
  string eol() { return crlf ? "\r\n" : "\n"; }
  string between() { string r; while (g.p(rate * 0.6)) { ++put; if (g.p(0.5)) r += ws(true) + "#" + words() + eol(); else r += ws(true) + eol(); } return r; }
  string line(const string &l) { // one line of tokens
    string r = between() + ws(true); std::istringstream is(l); string w; bool first = true;
    while (is >> w) { if (!first) r += ws(false); r += w; first = false; }
    r += ws(true);
    if (g.p(rate * 0.7)) { ++put; r += " #" + words(); }
    return r + eol();
  }
  string text(const string &t) {
    std::istringstream is(t); string l, r;
    while (std::getline(is, l)) { if (l.find_first_not_of(" \t") == string::npos) { r += l + eol(); continue; } r += line(l); }
    r += between();
    if (g.p(0.2)) while (!r.empty() && (r.back() == '\n' || r.back() == '\r')) r.pop_back();
    return r;
  }
};
// white space and line breaks inside an isl set or map
static string islNoise(Noise &n, const string &s) {
  string r; for (char ch : s) { r += ch; if (ch == ' ' && n.g.p(n.rate)) { ++n.put; r += n.g.p(0.4) ? n.eol() : string("\t "); } } return r;
}
// The problem with each part in a notation of its own
static string otherNotation(Rng &g, Noise &n, const Problem &p, char lang, string &how) {
  vector<string> pars = p.pnames ? p.pn : seqNames("p", p.npar);
  string t(1, lang); t += "\n";
  auto ext = [&](const vector<Row> &rows, int out, int in, int loc, int par) {
    string r = fmt("%zu %d %d %d %d %d\n", rows.size(), out + in + loc + par + 2, out, in, loc, par);
    for (auto &row : rows) { r += row.ineq ? "1" : "0"; for (auto &v : row.c) r += " " + istr(v); r += "\n"; }
    return r;
  };
  string body; vector<string> parts; // matrices get line noise, isl texts theirs
  auto lines = [&](const string &s) { std::istringstream is(s); string l, r; while (std::getline(is, l)) r += n.line(l); return r; };
  string out = lines(t);
  // named parameters (isl) and unnamed ones (matrices) do not mix
  int form = p.npar ? g.in(0, 1) : 2; // 0 matrices, 1 isl, 2 anything
  auto pick = [&]() -> int { return form == 0 ? (int)g.in(0, 1) : form == 1 ? 2 : (int)g.in(0, 2); };
  int k = pick();
  how += fmt("context %d;", k);
  if (k == 0) out += lines(emitPoly(p.ctx, false, 0));
  else if (k == 1) out += lines(ext(p.ctx.rows, p.npar, 0, 0, 0));
  else {
    string par = p.npar ? "[" + joinNames(pars) + "] -> " : "";
    out += n.between() + islNoise(n, par + "{ : " + polyStr(p.ctx, pars, {}) + " }") + n.eol();
  }
  out += lines(p.pnames ? "1\n" + [&] { string r; for (auto &x : p.pn) r += x + " "; return r; }() + "\n" : string("0\n"));
  out += lines(fmt("%zu\n", p.st.size()));
  for (auto &s : p.st) {
    bool loc = false; for (auto &u : s.u) loc |= u.nloc > 0;
    int w = pick(); if (w == 0 && loc) w = 1;
    how += fmt(" domain %d;", w);
    if (w == 2) {
      vector<string> dims = seqNames("x", s.dim);
      string par = p.npar ? "[" + joinNames(pars) + "] -> " : "";
      out += n.between() + islNoise(n, par + "{ [" + joinNames(dims) + "] : " + unionStr(s.u, dims, pars) + " }") + n.eol();
    } else {
      out += lines(fmt("%zu\n", s.u.size()));
      for (auto &u : s.u) out += lines(w == 1 ? ext(u.rows, u.ndim, 0, u.nloc, p.npar) : emitPoly(u, false, p.npar));
    }
    out += lines("0 0 0\n");
  }
  auto nameLines = [&](bool given, const vector<string> &v, int cnt) { string r; if (!given) return string("0\n"); r = "1\n"; for (int i = 0; i < cnt; ++i) r += v[i] + " "; return r + "\n"; };
  out += lines(nameLines(p.inames, p.in, p.maxdim()));
  if (!p.nscat) out += lines("0\n");
  else {
    out += lines(fmt("%zu\n", p.st.size()));
    for (auto &s : p.st) {
      int w = pick(); auto rows = scatRows(p, s);
      how += fmt(" scattering %d;", w);
      if (w == 0) { string r = fmt("%zu %d\n", rows.size(), p.nscat + s.dim + p.npar + 2); for (auto &row : rows) { r += row.ineq ? "1" : "0"; for (auto &v : row.c) r += " " + istr(v); r += "\n"; } out += lines(r); }
      else if (w == 1) out += lines(ext(rows, p.nscat, s.dim, 0, p.npar));
      else {
        vector<string> dims = seqNames("x", s.dim), o;
        string cns = scatStr(p, s, dims, pars, o), par = p.npar ? "[" + joinNames(pars) + "] -> " : "";
        out += n.between() + islNoise(n, par + "{ [" + joinNames(dims) + "] -> [" + joinNames(o) + "] : " + cns + " }") + n.eol();
      }
    }
    out += lines(nameLines(p.snames, p.sn, p.nscat));
  }
  return out;
}
MODE(lay) {
  Rng &g = c.g;
  InstCfg cfg; cfg.pCorpus = 0.15; cfg.pMut = 0.1;
  Inst in = makeInst(c, cfg);
  bool fort = g.p(0.2); in.c.lang = fort ? 'f' : 'c'; in.emit();
  Opt o = genOpt(g, in, true);
  c.say(in.text + "# options:" + o.str() + "\n");
  long total = 0;
  auto keep = keepable(c, in, 2, 40000, &total);
  Noise n(g);
  string lay = n.text(in.text);
  string t0, t1;
  auto names = [](CloogInput *i) { vector<string> r; for (int k = 0; k < 3; ++k) { if (!i->ud->name[k]) { r.push_back("none"); continue; } for (int j = 0; j < i->ud->n_name[k]; ++j) r.push_back(fmt("%d:%s", k, i->ud->name[k][j])); } return r; };
  vector<string> n0, n1;
  auto gen = [&](const string &text, vector<string> &nm, string &out, const std::function<void(clast_stmt *)> &use) {
    Lib L; o.apply(L.o); L.o->language = 77;
    StrFile f(text); CloogInput *i = cloog_input_read(f.f, L.o); nm = names(i);
    if (L.o->language != (fort ? CLOOG_LANGUAGE_FORTRAN : CLOOG_LANGUAGE_C)) viol("the input was read for the wrong language");
    L.o->language = CLOOG_LANGUAGE_C;
    clast_stmt *root = cloog_clast_create_from_input(i, L.o);
    out = printAst(root, L.o); use(root); cloog_clast_free(root);
  };
  gen(in.text, n0, t0, [](clast_stmt *) {});
  c.say("# layout:\n" + lay + "\n");
  gen(lay, n1, t1, [](clast_stmt *) {});
  if (n0 != n1) viol("the names changed with the layout: " + joinNames(n0) + " became " + joinNames(n1));
  if (t0 != t1) viol("the code changed with the layout:\n" + t1);
  c.st["layouts"]++; c.st["layout_changes"] += n.put;
  if (!in.corpus) {
    string how; Noise m(g);
    string alt = otherNotation(g, m, in.p(), fort ? 'f' : 'c', how);
    c.say("# notation:\n" + alt + "\n");
    vector<string> n2; string t2;
    gen(alt, n2, t2, [&](clast_stmt *root) { for (auto &v : keep) runMon(c, root, in, v, pnames(in), byNumber, "input in other notations"); });
    if (n0 != n2) viol("the names changed with the notation: " + joinNames(n0) + " became " + joinNames(n2));
    c.st["notations"]++; if (t2 == t0) c.st["notations_same_text"]++;
  }
  // a matrix of its own
  {
    int r = g.in(0, 5), k = g.in(1, 6); vector<vector<string>> v(r); string t = fmt("%d %d\n", r, k);
    for (auto &row : v) { for (int j = 0; j < k; ++j) { string x = g.p(0.15) ? istr(((I)1 << g.in(30, 100)) * (g.p(0.5) ? 1 : -1)) : std::to_string(g.in(-9, 9)); row.push_back(x); t += x + " "; } t += "\n"; }
    Noise m(g); string noisy; { std::istringstream is(t); string l; while (std::getline(is, l)) noisy += m.line(l); }
    string follow = "NEXT\n"; c.say("# matrix:\n" + noisy);
    StrFile f(noisy + follow); CloogMatrix *M = cloog_matrix_read(f.f);
    if ((int)M->NbRows != r || (int)M->NbColumns != k) viol("the matrix has another size");
    for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) { char *s = mpz_get_str(nullptr, 10, M->p[i][j]); bool same = v[i][j] == s; string got = s; free(s); if (!same) viol(fmt("entry %d,%d of the matrix is ", i, j) + got + " instead of " + v[i][j]); }
    cloog_matrix_free(M);
    char rest[64] = ""; // the text after the matrix is left to the reader
    string after; while (fgets(rest, sizeof rest, f.f)) after += rest;
    if (after != follow) viol("reading the matrix left another rest: " + after.substr(0, 60));
    c.st["matrices"]++;
  }
  c.hash = mix(hstr(lay), hstr(o.str())); c.nontrivial = total > 0 && n.put > 0;
  if (c.nontrivial) c.sample = lay.substr(0, 400);
}
