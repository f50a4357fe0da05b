#include "frame.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>

std::map<string, std::pair<ModeFn, int>> &modes() { static std::map<string, std::pair<ModeFn, int>> m; return m; }
ModeReg::ModeReg(const char *n, ModeFn f, int cpu) { modes()[n] = {f, cpu}; }

static char *shm; static const size_t SHM = 1 << 18;
void Case::say(const string &s) {
  desc += s;
  static const char *echo = getenv("VERIF_ECHO"); if (echo) { fputs(s.c_str(), stdout); fflush(stdout); }
  if (shm) { size_t n = std::min(desc.size(), SHM - 16); memcpy(shm + 8, desc.data(), n); *(uint32_t *)shm = n; }
}

static void walk(const string &d, vector<string> &out) {
  DIR *D = opendir(d.c_str());
  if (!D) return;
  vector<string> sub;
  while (dirent *e = readdir(D)) {
    string n = e->d_name;
    if (n[0] == '.') continue;
    sub.push_back(d + "/" + n);
  }
  closedir(D);
  std::sort(sub.begin(), sub.end());
  for (auto &s : sub) {
    struct stat st;
    if (stat(s.c_str(), &st)) continue;
    if (S_ISDIR(st.st_mode)) walk(s, out);
    else if (s.size() > 6 && s.substr(s.size() - 6) == ".cloog" && st.st_size < 6000) out.push_back(s);
  }
}
void walkFiles(const string &d, vector<string> &out) { walk(d, out); }
const vector<string> &corpusFiles(const string &repo) {
  static vector<string> f;
  if (f.empty()) { walk(repo + "/test", f); walk(repo + "/examples", f); }
  return f;
}

Inst makeInst(Case &c, const InstCfg &cfg) {
  Rng &g = c.g;
  double r = g.p(1) ? (g.next() >> 11) * (1.0 / 9007199254740992.0) : 0;
  const auto &cf = corpusFiles(c.repo);
  if (!cf.empty() && r < cfg.pCorpus + cfg.pMut) {
    for (int t = 0; t < 60; ++t) {
      const string &f = g.pick(cf);
      try {
        Inst in; in.corpus = true; in.c = CorpusReader::read(f);
        if (in.c.p.st.empty() || in.c.p.st.size() > 8 || in.c.p.nscat > 9 || in.c.p.maxdim() > 6) continue;
        if (cfg.needScat && !in.c.p.nscat) continue;
        size_t rows = 0; for (auto &s : in.c.p.st) for (auto &u : s.u) rows += u.rows.size();
        if (rows > 80) continue;
        in.c.lang = 'c';
        if (r >= cfg.pCorpus) mutate(g, in.c);
        in.emit();
        if ((int)in.text.size() > cfg.maxText) continue;
        return in;
      } catch (CorpusErr &) {}
    }
  }
  for (;;) {
    Inst in;
    GenCfg gc = cfg.gen;
    if (cfg.needScat) gc.pScat = 1;
    // vary the flavour of the generator itself
    switch (g.in(0, 7)) {
    case 0: gc.pLocal = 0.6; gc.maxStmt = 2; break;
    case 1: gc.pUnion = 0.8; gc.maxStmt = 3; break;
    case 2: gc.pEq = 0.9; break;
    case 3: gc.pFloor = 0.5; break;
    case 4: gc.maxStmt = 6; gc.maxDim = 2; break;
    case 5: gc.maxDim = 4; gc.maxStmt = 2; gc.hi = 4; gc.lo = -2; break;
    case 6: gc.coef = 6; gc.maxPar = 3; break;
    default: break;
    }
    in.c.p = genProblem(g, gc);
    if (cfg.needScat && !in.c.p.nscat) continue;
    in.emit();
    return in;
  }
}
vector<Vec> paramsFor(Case &c, const Inst &in, int want) {
  return pickParams(c.g, in.p(), want);
}
void bindParams(std::map<string, I> &env, const Inst &in, const Vec &par) {
  for (int i = 0; i < in.npar(); ++i) env[in.pname(i)] = par[i];
}
vector<Ev> traceAst(clast_stmt *root, const Inst &in, const Vec &par, long maxSteps) {
  vector<Ev> t; ClastInterp ip; ip.maxSteps = maxSteps;
  bindParams(ip.env, in, par);
  ip.onUser = [&](clast_user_stmt *u, const Vec &v) { t.push_back({u->statement->number, v}); };
  ip.run(root);
  return t;
}
string traceDiff(const vector<Ev> &a, const vector<Ev> &b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; ++i) if (!(a[i] == b[i])) return fmt("event %zu is S%d%s in one and S%d%s in the other", i, a[i].s, vstr(a[i].v).c_str(), b[i].s, vstr(b[i].v).c_str());
  if (a.size() != b.size()) return fmt("one has %zu events, the other %zu", a.size(), b.size());
  return "";
}

static string jesc(const string &s) {
  string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch == '\t') r += "\\t";
    else if (ch < 32 || ch > 126) r += fmt("\\u%04x", ch);
    else r += ch;
  }
  return r;
}
struct Res { char status; string msg; uint64_t hash; bool nt; string sample; std::map<string, long> st; };

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define IS_ASAN 1
#endif
#endif
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define IS_ASAN 1
#endif
#endif
#ifndef IS_ASAN
#define IS_ASAN 0
#endif

static void runCase(Case &c, Res &r) {
  r.status = 'O';
  try { modes()[c.mode].first(c); }
  catch (Violation &v) { r.status = 'V'; r.msg = v.what; }
  catch (Inconclusive &v) { r.status = 'I'; r.msg = v.why; }
  catch (Overflow &) { r.status = 'I'; r.msg = "value beyond 128 bits in the monitor"; }
  catch (TooBig &) { r.status = 'I'; r.msg = "too many points to enumerate"; }
  catch (SyntaxErr &v) { r.status = 'V'; r.msg = "printed code does not parse: " + v.what; }
  catch (CorpusErr &v) { r.status = 'I'; r.msg = "corpus " + v.what; }
  r.hash = c.hash; r.nt = c.nontrivial; r.sample = c.sample; r.st = c.st;
}
static void sendRes(int fd, const Res &r) {
  string o = string(1, r.status) + (r.nt ? '1' : '0') + fmt("%016llx", (unsigned long long)r.hash);
  auto put = [&](const string &s) { o += fmt("%08zx", s.size()) + s; };
  put(r.msg); put(r.sample);
  for (auto &x : r.st) { put(x.first); put(std::to_string(x.second)); }
  size_t k = 0;
  while (k < o.size()) { ssize_t w = write(fd, o.data() + k, o.size() - k); if (w <= 0) break; k += w; }
}
static bool parseRes(const string &o, Res &r) {
  if (o.size() < 18) return false;
  r.status = o[0]; r.nt = o[1] == '1'; r.hash = strtoull(o.substr(2, 16).c_str(), 0, 16);
  size_t p = 18;
  auto get = [&](string &s) -> bool { if (p + 8 > o.size()) return false; size_t n = strtoul(o.substr(p, 8).c_str(), 0, 16); p += 8; if (p + n > o.size()) return false; s = o.substr(p, n); p += n; return true; };
  if (!get(r.msg) || !get(r.sample)) return false;
  string k, v;
  while (get(k) && get(v)) r.st[k] = atol(v.c_str());
  return true;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv) {
  if (argc < 2) { fprintf(stderr, "mon run|one|list ...\n"); return 2; }
  string cmd = argv[1];
  if (cmd == "list") { for (auto &m : modes()) printf("%s\n", m.first.c_str()); return 0; }
  // run MODE SEED START COUNT OUT SCRATCH REPO CPUSCALE WALL ; one MODE SEED IDX SCRATCH REPO ; seq MODE SEED START COUNT SCRATCH REPO
  string mode = argv[2];
  if (!modes().count(mode)) { fprintf(stderr, "no mode %s\n", mode.c_str()); return 2; }
  uint64_t seed = strtoull(argv[3], 0, 10);
  long start = atol(argv[4]);
  auto mk = [&](long idx, const string &scratch, const string &repo) {
    Case c; c.mode = mode; c.idx = idx; c.seed = mix(mix(seed, hstr(mode)), idx); c.g = Rng(c.seed); c.scratch = scratch; c.repo = repo; c.asan = IS_ASAN;
    return c;
  };
  if (cmd == "one" || cmd == "seq") {
    long count = cmd == "one" ? 1 : atol(argv[5]);
    int k = cmd == "one" ? 5 : 6;
    string scratch = argc > k ? argv[k] : "/tmp", repo = argc > k + 1 ? argv[k + 1] : "/repo";
    int bad = 0;
    for (long i = start; i < start + count; ++i) {
      Case c = mk(i, scratch, repo); Res r;
      runCase(c, r);
      if (cmd == "one") {
        printf("%s\n---\nstatus %c %s\nhash %016llx nontrivial %d\nsample %s\n", c.desc.c_str(), r.status, r.msg.c_str(), (unsigned long long)r.hash, r.nt, r.sample.c_str());
        for (auto &x : r.st) printf("  %s=%ld\n", x.first.c_str(), x.second);
      } else if (r.status == 'V') printf("case %ld: %s\n", i, r.msg.c_str());
      if (r.status == 'V') bad = 1;
      fflush(stdout);
    }
    return bad;
  }
  long count = atol(argv[5]); string out = argv[6], scratch = argv[7], repo = argv[8]; double cpuscale = atof(argv[9]); double wall = atof(argv[10]);
  shm = (char *)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  corpusFiles(repo);
  signal(SIGPIPE, SIG_IGN);
  long done = 0, ok = 0; std::map<string, long> inc, stats; vector<uint64_t> hashes; vector<string> viols, samples, slow, hung; long nviol = 0;
  double t0 = now(); bool cut = false; double maxcase = 0;
  for (long i = start; i < start + count; ++i) {
    if (now() - t0 > wall) { cut = true; break; }
    *(uint32_t *)shm = 0;
    int pfd[2]; if (pipe(pfd)) return 2;
    int efd = syscall(SYS_memfd_create, "err", 0);
    fflush(NULL);
    double c0 = now();
    pid_t pid = fork();
    if (pid == 0) {
      close(pfd[0]);
      setpgid(0, 0);
      dup2(efd, 2);
      int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 0);
      int cpu = std::max(1, (int)(modes()[mode].second * cpuscale));
      rlimit rl; rl.rlim_cur = cpu; rl.rlim_max = cpu + 2; setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
      rl.rlim_cur = rl.rlim_max = 1l << 30; setrlimit(RLIMIT_FSIZE, &rl);
      if (!IS_ASAN && !getenv("VERIF_TOOL")) { rl.rlim_cur = rl.rlim_max = 3l << 30; setrlimit(RLIMIT_AS, &rl); }
      alarm(cpu * 8 + 20);
      Case c = mk(i, scratch, repo); Res r;
      runCase(c, r);
      sendRes(pfd[1], r);
      close(pfd[1]);
      leave(77);
    }
    close(pfd[1]);
    string buf; char b[65536]; ssize_t n;
    while ((n = read(pfd[0], b, sizeof b)) > 0) buf.append(b, n);
    close(pfd[0]);
    int stt = 0; rusage ru; wait4(pid, &stt, 0, &ru);
    if (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + 1e-6 * (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) > 0.3 * std::max(1, (int)(modes()[mode].second * cpuscale))) slow.push_back(std::to_string(i));
    kill(-pid, SIGKILL);
    double dt = now() - c0; if (dt > maxcase) maxcase = dt;
    string err; off_t el = lseek(efd, 0, SEEK_END); if (el > 8000) { lseek(efd, 0, SEEK_SET); } else lseek(efd, 0, SEEK_SET);
    n = read(efd, b, 8000); if (n > 0) err.assign(b, n); close(efd);
    ++done;
    Res r; string kind;
    bool good = WIFEXITED(stt) && WEXITSTATUS(stt) == 77 && parseRes(buf, r);
    uint32_t dl = *(uint32_t *)shm; string desc(shm + 8, dl);
    if (!good) {
      r.status = 'V'; r.nt = false;
      if (WIFSIGNALED(stt)) {
        int sg = WTERMSIG(stt);
        if (sg == SIGXCPU || sg == SIGALRM || sg == SIGKILL) { r.status = 'I'; r.msg = "cpu limit"; hung.push_back(std::to_string(i)); }
        else { kind = "signal"; r.msg = fmt("process killed by signal %d (%s)", sg, strsignal(sg)); }
      } else { kind = "exit"; r.msg = fmt("process ended by itself with status %d", WEXITSTATUS(stt)); }
    } else if (r.status == 'V') kind = "monitor";
    for (auto &x : r.st) stats[x.first] += x.second;
    if (r.status == 'O') { ++ok; if (r.nt) hashes.push_back(r.hash); if (r.nt && samples.size() < 2 && !r.sample.empty()) samples.push_back(r.sample); }
    else if (r.status == 'I') { inc[r.msg.substr(0, 60)]++; if (r.msg.compare(0, 11, "step budget") == 0) hung.push_back(std::to_string(i)); }
    else {
      ++nviol;
      if (viols.size() < 25)
        viols.push_back(fmt("{\"idx\":%ld,\"kind\":\"%s\",", i, kind.c_str()) + "\"msg\":\"" + jesc(r.msg) + "\",\"desc\":\"" + jesc(desc) + "\",\"stderr\":\"" + jesc(err) + "\"}");
    }
  }
  FILE *f = fopen(out.c_str(), "w");
  fprintf(f, "{\"done\":%ld,\"ok\":%ld,\"nviol\":%ld,\"cut\":%d,\"maxcase\":%.3f,\"wall\":%.3f,\"inc\":{", done, ok, nviol, cut, maxcase, now() - t0);
  bool first = true;
  for (auto &x : inc) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
  fprintf(f, "},\"stats\":{"); first = true;
  for (auto &x : stats) { fprintf(f, "%s\"%s\":%ld", first ? "" : ",", jesc(x.first).c_str(), x.second); first = false; }
  fprintf(f, "},\"hashes\":["); for (size_t i = 0; i < hashes.size(); ++i) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)hashes[i]);
  fprintf(f, "],\"hung\":["); for (size_t i = 0; i < hung.size(); ++i) fprintf(f, "%s%s", i ? "," : "", hung[i].c_str());
  fprintf(f, "],\"slow\":["); for (size_t i = 0; i < slow.size(); ++i) fprintf(f, "%s%s", i ? "," : "", slow[i].c_str());
  fprintf(f, "],\"samples\":["); for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
  fprintf(f, "],\"violations\":["); for (size_t i = 0; i < viols.size(); ++i) fprintf(f, "%s%s", i ? "," : "", viols[i].c_str());
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}
