// Monitors of the generated AST: exactly-once scanning, order, option invariance.
#include "frame.h"

static void runMonitored(Case &c, clast_stmt *root, const Inst &in, const Vec &par, bool order, const string &where, long budget = 60000) {
  Expect e = in.expect(par, budget);
  Monitor m(e, order, where + " " + parStr(in, par));
  ClastInterp ip; bindParams(ip.env, in, par);
  ip.onUser = [&](clast_user_stmt *u, const Vec &v) { m.event(u->statement->number - 1, v); };
  ip.run(root);
  m.finish();
  c.st["instances"] += m.seen; c.st["ordered_pairs"] += m.ordered; c.st["executions"] += 1;
  if (m.seen) c.st["executions_nonempty"]++;
  c.st["loops_entered"] += ip.loops; c.st["guards_evaluated"] += ip.guards;
}
static void observe(Case &c, clast_stmt *root) {
  AstStats a; astStats(root, a);
  c.st["ast_for"] += a.fors; c.st["ast_guard"] += a.guards; c.st["ast_strided_for"] += a.strided; c.st["ast_mod"] += a.mods; c.st["ast_minmax"] += a.minmax; c.st["ast_div"] += a.divs;
}

static void execCase(Case &c, const InstCfg &cfg, bool order, int nOpt, bool wide) {
  Inst in = makeInst(c, cfg);
  c.say(in.text);
  vector<Opt> opts;
  if (nOpt == 1) opts.push_back(genOpt(c.g, in, wide));
  else { opts.push_back(Opt()); for (int i = 1; i < nOpt; ++i) opts.push_back(genOpt(c.g, in, true)); }
  auto pars = paramsFor(c, in, 5);
  if (pars.empty()) inconc("no parameter value satisfies the context");
  // reference sets first: cases too large to enumerate are dropped before generation
  vector<Vec> keep;
  long total = 0;
  for (auto &v : pars) { try { total += in.expect(v, 60000).total; keep.push_back(v); } catch (TooBig &) {} }
  if (keep.empty()) inconc("too many points to enumerate");
  c.hash = hstr(in.text);
  if (getenv("REDUCE")) { extern void reduceTrip(Inst, Opt, vector<Vec>, bool); for (auto &o : opts) reduceTrip(in, o, keep, order); fflush(stdout); _exit(0); }
  for (auto &o : opts) {
    c.say("# options:" + o.str() + "\n");
    Lib L; o.apply(L.o);
    clast_stmt *root = generate(L, in.text);
    observe(c, root);
    c.st["programs"]++;
    for (auto &v : keep) runMonitored(c, root, in, v, order, "options" + o.str());
    cloog_clast_free(root);
    c.hash = mix(c.hash, hstr(o.str()));
  }
  c.nontrivial = total > 0 && (!order || c.st["ordered_pairs"] > 0);
  if (c.nontrivial) c.sample = fmt("%zu stmts, %d scat dims, %d params, options%s: %ld instances over %zu parameter values; input: ", in.p().st.size(), in.p().nscat, in.npar(), opts.back().str().c_str(), c.st["instances"], keep.size()) + in.text.substr(0, 400);
}
MODE(scan) { InstCfg cfg; execCase(c, cfg, false, 1, c.g.p(0.25)); }
MODE(order) { InstCfg cfg; cfg.needScat = true; execCase(c, cfg, true, 1, c.g.p(0.3)); }
MODE(opts) { InstCfg cfg; cfg.pCorpus = 0.1; execCase(c, cfg, true, 4, true); }
// Inputs that once failed (data/pinned): one case per file, with the options and parameter values noted at its end.
static void pinned(Case &c, const char *sub, bool order) {
  const char *d = getenv("VERIF_DATA"); vector<string> fs;
  if (d) { extern void walkFiles(const string &, vector<string> &); walkFiles(string(d) + "/pinned/" + sub, fs); }
  if (c.idx >= (long)fs.size()) inconc("no such file");
  const string &path = fs[c.idx];
  string all; { FILE *f = fopen(path.c_str(), "r"); char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) all.append(b, n); fclose(f); }
  size_t k = all.find("# options:"); if (k == string::npos) inconc("no options in " + path);
  string line = all.substr(k + 10, all.find('\n', k) - k - 10), opts = line.substr(0, line.find("params")), par = line.substr(line.find("params"));
  Inst in; in.corpus = true; in.c = CorpusReader::read(path); in.emit();
  Opt o; std::istringstream is(opts); string w; int v;
  while (is >> w >> v) {
#define P(x, n) if (w == n) o.x = v; else
    P(l, "-l") P(f, "-f") P(stop, "-stop") P(strides, "-strides") P(sh, "-sh") P(first_unroll, "-first-unroll") P(esp, "-esp") P(fsp, "-fsp") P(otl, "-otl") P(block, "-block") P(noblocks, "-noblocks") P(noscalars, "-noscalars") P(save_domains, "-save") inconc("unknown option " + w);
#undef P
  }
  Vec pv; string num; for (char ch : par) if (isdigit(ch) || ch == '-') num += ch; else if (!num.empty()) { pv.push_back(atol(num.c_str())); num.clear(); }
  if ((int)pv.size() != in.npar()) inconc("wrong number of parameter values in " + path);
  c.say(path.substr(path.rfind('/') + 1) + "\n" + in.text + "# options:" + o.str() + "\n");
  vector<Vec> pars = paramsFor(c, in, 12); pars.insert(pars.begin(), pv);
  Lib L; o.apply(L.o);
  clast_stmt *root = generate(L, in.text);
  for (size_t i = 0; i < pars.size(); ++i) { try { in.expect(pars[i], 60000); } catch (TooBig &) { continue; } runMonitored(c, root, in, pars[i], order, "options" + o.str()); }
  cloog_clast_free(root);
  c.st["pinned_inputs"]++; c.nontrivial = true; c.hash = hstr(in.text + o.str());
}
MODE(pin1) { pinned(c, "C01", false); }
MODE(pin2) { pinned(c, "C02", true); }
MODE(pin3) { pinned(c, "C03", true); }
// Single-option triage: MON_OPT names the only option varied.
MODE(tri) {
  InstCfg cfg; if (getenv("NOCORP")) cfg.pCorpus = cfg.pMut = 0;
  if (getenv("NOLOC")) cfg.gen.pLocal = 0;
  if (getenv("NOFLOOR")) cfg.gen.pFloor = 0;
  if (getenv("NOSCAT")) cfg.gen.pScat = 0;
  Inst in = makeInst(c, cfg);
  const char *e = getenv("MON_OPT"); string which = e ? e : "";
  Opt o; Opt w = genOpt(c.g, in, true); int lev = in.p().nscat + in.p().maxdim();
  if (which == "strides") o.strides = 1;
  if (which == "f") o.f = c.g.p(0.3) ? -1 : c.g.in(1, lev + 1);
  if (which == "f-1") o.f = -1;
  if (which == "l") o.l = c.g.in(1, lev + 1);
  if (which == "sh") o.sh = 1;
  if (which == "unroll") o.first_unroll = c.g.in(1, std::max(1, lev));
  if (which == "esp") o.esp = 0;
  if (which == "esp0fsp") o.esp = 0, o.fsp = c.g.in(1, lev + 1);
  if (which == "fsp") o.fsp = c.g.in(1, lev + 1);
  if (which == "otl") o.otl = 0;
  if (which == "block") o.block = 1;
  if (which == "backtrack") o.backtrack = 1;
  if (which == "noblocks") o.noblocks = 1;
  if (which == "noscalars") o.noscalars = 1;
  if (which == "nosimplify") o.nosimplify = 1;
  if (which == "save") o.save_domains = 1;
  if (which == "str-otl") o.strides = 1, o.otl = 0;
  c.say(in.text + "# options:" + o.str() + "\n");
  auto pars = paramsFor(c, in, 5);
  if (pars.empty()) inconc("no parameter value satisfies the context");
  vector<Vec> keep; for (auto &v : pars) { try { in.expect(v, 60000); keep.push_back(v); } catch (TooBig &) {} }
  if (keep.empty()) inconc("too many points to enumerate");
  if (getenv("REDUCE")) { extern void reduceTrip(Inst, Opt, vector<Vec>, bool); reduceTrip(in, o, keep, true); fflush(stdout); _exit(0); }
  Lib L; o.apply(L.o);
  clast_stmt *root = generate(L, in.text);
  c.say("/*\n" + printAst(root, L.o) + "*/\n");
  for (auto &v : keep) runMonitored(c, root, in, v, true, "options" + o.str());
  cloog_clast_free(root);
}
