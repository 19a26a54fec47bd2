#include "pbt.hpp"
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sstream>
#include <set>
#include <typeinfo>
#include <cxxabi.h>
#include <signal.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "CoinError.hpp"
#include "IpException.hpp"
#include "BonTNLPSolver.hpp"

namespace pbt {

std::vector<Property> &registry() { static std::vector<Property> r; return r; }

std::string fmt(const char *f, ...) {
  char b[8192];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  return b;
}

static uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

Case::Case(uint64_t seed, const std::vector<uint64_t> *replay, uint64_t *r, size_t rm, uint32_t *nr)
    : s(seed), rep(replay), rec(r), recmax(rm), nrec(nr) { *nrec = 0; }

uint64_t Case::draw(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v;
  if (rep) { v = pos < rep->size() ? (*rep)[pos] : 0; if (v >= n) v = n - 1; }
  else v = splitmix(s) % n;
  pos++;
  if (*nrec < recmax) rec[(*nrec)++] = v;
  hash = (hash ^ (v + 0x9e37)) * 1099511628211ull;
  return v;
}

static char *g_note = NULL; static size_t g_noteMax = 0; // survives a crash of the case
void Case::note(const char *f, ...) {
  char b[8192];
  va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  notes += b; if (verbose) { puts(b); fflush(stdout); }
  if (g_note) { size_t k = std::min(g_noteMax - 1, notes.size()); memcpy(g_note, notes.data(), k); g_note[k] = 0; }
}

enum { ST_RUN = 0, ST_PASS = 1, ST_FAIL = 2, ST_DISCARD = 3, ST_INC = 4, ST_CRASH = 5, ST_TIMEOUT = 6 };
static const size_t MAXC = 1 << 15;
static const int MAXB = 512;

struct Slot {
  // the case in progress (or the one that failed)
  volatile int status;
  uint32_t nrec;
  uint64_t rec[MAXC];
  char tag[160];
  char msg[8192];
  char note[16384];
  bool nt;
  uint64_t hash;
  long caseIdx;
  // statistics of the batch
  int done, st[8], ndist;
  uint64_t dist[MAXB];
  char labels[8192];
  char incl[4096];
  uint64_t sampleSeed;
  char sample[4096];
};

static void copys(char *d, size_t n, const std::string &s) { size_t k = std::min(n - 1, s.size()); memcpy(d, s.data(), k); d[k] = 0; }

static void setCpu(double lim) {
  struct rusage u; getrusage(RUSAGE_SELF, &u);
  double used = u.ru_utime.tv_sec + u.ru_stime.tv_sec + 1e-6 * (u.ru_utime.tv_usec + u.ru_stime.tv_usec);
  struct rlimit r; r.rlim_cur = (rlim_t) ceil(used + lim); r.rlim_max = RLIM_INFINITY;
  getrlimit(RLIMIT_CPU, &r); r.rlim_cur = (rlim_t) ceil(used + lim);
  setrlimit(RLIMIT_CPU, &r);
}

static void runOne(const Property &P, Slot *S, uint64_t seed, const std::vector<uint64_t> *rep, std::map<std::string, int> &labels,
                   std::map<std::string, int> &incl) {
  S->status = ST_RUN; S->tag[0] = S->msg[0] = S->note[0] = 0; S->nt = false;
  g_note = S->note; g_noteMax = sizeof S->note;
  Case c(seed, rep, S->rec, MAXC, &S->nrec);
  c.verbose = getenv("PBT_VERBOSE") != NULL;
  int st = ST_PASS; std::string tag, msg;
  try { P.fn(c); }
  catch (Discard &) { st = ST_DISCARD; }
  catch (Inconclusive &e) { st = ST_INC; msg = e.why; incl[e.why]++; }
  catch (Failure &f) { st = ST_FAIL; tag = f.tag; msg = f.msg; }
  catch (CoinError &e) { st = ST_FAIL; tag = "exception:CoinError"; msg = e.className() + "::" + e.methodName() + ": " + e.message(); }
  catch (Ipopt::IpoptException &e) { st = ST_FAIL; tag = "exception:Ipopt"; msg = e.Message(); }
  catch (Bonmin::TNLPSolver::UnsolvedError *e) { st = ST_FAIL; tag = "exception:Unsolved"; msg = "UnsolvedError reached the harness"; }
  catch (std::exception &e) { st = ST_FAIL; tag = "exception:std"; msg = e.what(); }
  catch (...) {
    st = ST_FAIL; const std::type_info *t = abi::__cxa_current_exception_type();
    tag = "exception:other"; msg = t ? t->name() : "?";
  }
  S->nt = c.nt; S->hash = c.hash;
  copys(S->note, sizeof S->note, c.notes); copys(S->tag, sizeof S->tag, tag); copys(S->msg, sizeof S->msg, msg);
  for (auto &l : c.labels) labels[l.first] += l.second ? 1 : 0;
  S->st[st]++;
  if (st == ST_PASS && c.nt && S->ndist < MAXB) S->dist[S->ndist++] = c.hash;
  if (st == ST_PASS && c.nt && !S->sample[0]) copys(S->sample, sizeof S->sample, c.notes);
  S->status = st;
}

static uint64_t caseSeed(uint64_t seed, const std::string &id, long idx) {
  uint64_t s = seed * 0x9E3779B97F4A7C15ull + 12345;
  for (char ch : id) s = (s ^ (unsigned char) ch) * 1099511628211ull;
  s ^= (uint64_t) idx * 0xD1342543DE82EF95ull;
  splitmix(s); return splitmix(s);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// A crash whose innermost frame lies in one of the solver libraries Bonmin is linked with (installed, not built from
// /repo) is counted as inconclusive while it is as rare as on the unchanged tree; see libCrash in main().
static Slot *g_slot = NULL;
static void onCrash(int sig) {
  void *f[64]; int n = backtrace(f, 64); bool tramp = false;
  for (int i = 1; i < n; i++) {
    Dl_info d; if (!dladdr(f[i], &d) || !d.dli_fname) continue;
    const char *b = strrchr(d.dli_fname, '/'); b = b ? b + 1 : d.dli_fname;
    if (!strncmp(b, "libc.", 5) || !strncmp(b, "libc-", 5) || !strncmp(b, "libgcc", 6) || !strncmp(b, "libstdc++", 9) || !strncmp(b, "libpthread", 10)) { tramp = true; continue; }
    if (!tramp) continue; // this handler itself
    for (const char *l : {"libCbc", "libClp", "libCgl", "libOsi", "libCoinUtils", "libipopt", "libcoinmumps", "libdmumps"})
      if (!strncmp(b, l, strlen(l))) { if (g_slot) copys(g_slot->tag, sizeof g_slot->tag, std::string("crash inside ") + b); _exit(77); }
    break;
  }
  signal(sig, SIG_DFL); raise(sig);
}
static void watchCrash(Slot *S) {
#ifndef __SANITIZE_ADDRESS__
  g_slot = S; void *f[4]; backtrace(f, 4); // loads libgcc now
  static char stk[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, NULL);
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onCrash; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(SIGSEGV, &a, NULL); sigaction(SIGBUS, &a, NULL); sigaction(SIGABRT, &a, NULL);
#endif
}

struct Child { pid_t pid = 0; Slot *slot = NULL; int errfd = -1; double start = 0, wallLimit = 0; long idx = 0; int tagi = 0; bool killed = false; };

static void childInit(int errfd) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int dn = open("/dev/null", O_RDWR);
  if (!getenv("PBT_VERBOSE")) { dup2(dn, 1); if (errfd >= 0) { ftruncate(errfd, 0); lseek(errfd, 0, SEEK_SET); dup2(errfd, 2); } }
#ifndef __SANITIZE_ADDRESS__
  struct rlimit r; r.rlim_cur = r.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &r);
#endif
  struct rlimit z; z.rlim_cur = z.rlim_max = 0; setrlimit(RLIMIT_CORE, &z);
}

static std::string errTail(int fd) {
  if (fd < 0) return "";
  off_t n = lseek(fd, 0, SEEK_END); if (n <= 0) return "";
  std::string s; s.resize(std::min<off_t>(n, 4000)); 
  off_t from = 0;
  if (n > 4000) from = 0;
  ssize_t k = pread(fd, &s[0], s.size(), from); if (k < 0) k = 0; s.resize(k); return s;
}

struct Result { int status; std::string tag, msg, note; std::vector<uint64_t> rec; bool nt; };

static std::string crashTag(int sig, const std::string &err) {
  // an assertion or a sanitizer names its call site; keep the file/function, not the line
  size_t p = err.find("Assertion `");
  if (p != std::string::npos) {
    size_t q = err.find("'", p + 11);
    return "assert:" + err.substr(p + 11, std::min<size_t>(100, q - p - 11));
  }
  p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) { size_t q = err.find_first_of(" \n", p + 25); return "asan:" + err.substr(p + 25, q - p - 25); }
  p = err.find("runtime error: ");
  if (p != std::string::npos) { size_t q = err.find_first_of("\n", p); return "ubsan:" + err.substr(p + 15, std::min<size_t>(40, q - p - 15)); }
  return fmt("crash:signal%d", sig);
}

static void finish(Child &c, int wst, Result &R) {
  Slot *S = c.slot;
  R.status = S->status;
  if (c.killed || (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGXCPU)) R.status = ST_TIMEOUT;
  else if (WIFSIGNALED(wst)) R.status = ST_CRASH;
  else if (WIFEXITED(wst) && WEXITSTATUS(wst) != 0 && S->status != ST_FAIL) R.status = ST_CRASH;
  else if (S->status == ST_RUN) R.status = ST_CRASH; // exit() from inside the code under test
  R.tag = S->tag; R.msg = S->msg; R.note = S->note; R.nt = S->nt;
  R.rec.assign(S->rec, S->rec + std::min<size_t>(S->nrec, MAXC));
  if (R.status == ST_CRASH) {
    std::string e = errTail(c.errfd);
    R.tag = crashTag(WIFSIGNALED(wst) ? WTERMSIG(wst) : 0, e);
    R.msg = (WIFSIGNALED(wst) ? fmt("process died with signal %d\n", WTERMSIG(wst)) : fmt("process exited with status %d\n", WEXITSTATUS(wst))) + e;
  }
  if (R.status == ST_TIMEOUT) { R.tag = "timeout"; R.msg = "CPU limit reached"; }
}

// run one replay in a fresh process
static void startReplay(const Property &P, Child &c, const std::vector<uint64_t> &rec, double cpu) {
  memset((void *) c.slot, 0, sizeof(Slot));
  c.killed = false; c.start = now(); c.wallLimit = 10 * cpu + 60;
  fflush(NULL);
  pid_t pid = fork();
  if (pid == 0) {
    childInit(c.errfd); setCpu(cpu);
    std::map<std::string, int> l, i;
    runOne(P, c.slot, 0, &rec, l, i);
    if (getenv("PBT_VERBOSE")) fflush(NULL);
    _exit(c.slot->status == ST_FAIL ? 1 : 0);
  }
  c.pid = pid;
}

static bool reap(std::vector<Child> &cs, int &which, int &wst, bool block = true) {
  for (;;) {
    pid_t p = waitpid(-1, &wst, WNOHANG);
    if (p > 0) { for (size_t i = 0; i < cs.size(); i++) if (cs[i].pid == p) { cs[i].pid = 0; which = (int) i; return true; } continue; }
    if (p < 0) return false;
    double t = now();
    for (auto &c : cs) if (c.pid && t - c.start > c.wallLimit) { c.killed = true; kill(c.pid, SIGKILL); c.start = t; }
    if (!block) return false;
    usleep(300);
  }
}

static bool failing(int st) { return st == ST_FAIL || st == ST_CRASH; }

static std::vector<Result> runMany(const Property &P, std::vector<Child> &cs, const std::vector<std::vector<uint64_t>> &recs, double cpu) {
  std::vector<Result> out(recs.size());
  size_t next = 0, active = 0;
  std::vector<int> which(cs.size());
  while (next < recs.size() || active) {
    for (size_t i = 0; i < cs.size() && next < recs.size(); i++) if (!cs[i].pid) { which[i] = (int) next; startReplay(P, cs[i], recs[next++], cpu); active++; }
    int w, wst; if (!reap(cs, w, wst)) break;
    finish(cs[w], wst, out[which[w]]); active--;
  }
  return out;
}

// shrink rec (fails with tag) within a time budget
static std::vector<uint64_t> shrink(const Property &P, std::vector<Child> &cs, std::vector<uint64_t> cur, const std::string &tag, int wantStatus,
                                    double budget, double cpu, int &steps) {
  double t0 = now(); steps = 0;
  auto tryAll = [&](const std::vector<std::vector<uint64_t>> &cands) -> bool {
    for (size_t i = 0; i < cands.size(); i += cs.size()) {
      if (now() - t0 > budget) return false;
      std::vector<std::vector<uint64_t>> chunk(cands.begin() + i, cands.begin() + std::min(cands.size(), i + cs.size()));
      auto r = runMany(P, cs, chunk, cpu);
      steps += (int) chunk.size();
      for (size_t k = 0; k < r.size(); k++)
        if ((wantStatus == ST_TIMEOUT ? r[k].status == ST_TIMEOUT : (failing(r[k].status) && r[k].tag == tag))) {
          // canonical form: what the case really consumed
          std::vector<uint64_t> n = wantStatus == ST_TIMEOUT ? chunk[k] : r[k].rec;
          while (!n.empty() && n.back() == 0) n.pop_back();
          bool better = n.size() < cur.size() || (n.size() == cur.size() && n < cur);
          if (better) { cur = n; return true; }
        }
    }
    return false;
  };
  while (!cur.empty() && cur.back() == 0) cur.pop_back();
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && now() - t0 < budget; len /= 2) {
      bool again = true;
      while (again && now() - t0 < budget) {
        std::vector<std::vector<uint64_t>> c;
        for (size_t i = 0; i < cur.size(); i += len) {
          std::vector<uint64_t> d(cur.begin(), cur.begin() + i); // deletion
          if (i + len < cur.size()) d.insert(d.end(), cur.begin() + i + len, cur.end());
          c.push_back(d);
          std::vector<uint64_t> z = cur; bool ch = false; // zeroing
          for (size_t k = i; k < std::min(cur.size(), i + len); k++) { if (z[k]) ch = true; z[k] = 0; }
          if (ch) c.push_back(z);
        }
        again = tryAll(c); progress |= again;
      }
    }
    for (size_t i = 0; i < cur.size() && now() - t0 < budget; i++) {
      if (!cur[i]) continue;
      std::vector<std::vector<uint64_t>> c;
      for (uint64_t v : {cur[i] / 2, cur[i] - 1, cur[i] > 2 ? cur[i] - 2 : (uint64_t) 0}) if (v < cur[i]) { auto z = cur; z[i] = v; c.push_back(z); }
      bool ok = tryAll(c); progress |= ok; if (ok) i--;
    }
  }
  return cur;
}

static std::string esc(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) o += fmt("\\u%04x", ch);
    else o += ch;
  }
  return o;
}

} // namespace pbt

using namespace pbt;

static void parseCounts(const char *s, std::map<std::string, long> &m) {
  std::istringstream is(s); std::string l;
  while (std::getline(is, l, '\x1f')) { size_t p = l.rfind('='); if (p != std::string::npos) m[l.substr(0, p)] += atol(l.c_str() + p + 1); }
}
static std::string fmtCounts(const std::map<std::string, int> &m) {
  std::string o; for (auto &k : m) o += k.first + "=" + std::to_string(k.second) + "\x1f"; return o;
}

int main(int argc, char **argv) {
  signal(SIGPIPE, SIG_IGN);
  std::string id, tier = "quick", out, replay, knownArg;
  uint64_t seed = 1; long only = -1; int jobs = 8; double scale = 1; bool stopFirst = true;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--id") id = val(); else if (a == "--seed") seed = strtoull(val().c_str(), NULL, 10);
    else if (a == "--tier") tier = val(); else if (a == "--out") out = val(); else if (a == "--replay") replay = val();
    else if (a == "--case") only = atol(val().c_str()); else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str()); else if (a == "--known") knownArg = val();
    else if (a == "--all") stopFirst = false;
    else if (a == "--list") { for (auto &p : registry()) printf("%s %d %d\n", p.id.c_str(), p.quick, p.thorough); return 0; }
  }
  const Property *P = NULL;
  for (auto &p : registry()) if (p.id == id) P = &p;
  if (!P) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 4; }
  std::set<std::string> known;
  { std::istringstream is(knownArg); std::string l; while (std::getline(is, l, '\x1f')) if (!l.empty()) known.insert(l); }
  std::vector<Child> cs(jobs);
  for (auto &c : cs) {
    c.slot = (Slot *) mmap(NULL, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    c.errfd = memfd_create("err", 0);
  }
  setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
  if (!replay.empty()) {
    std::ifstream f(replay); std::vector<uint64_t> rec; std::string w;
    while (f >> w) { if (w[0] == '#') { std::getline(f, w); continue; } rec.push_back(strtoull(w.c_str(), NULL, 10)); }
    std::vector<Child> one(cs.begin(), cs.begin() + 1);
    auto r = runMany(*P, one, {rec}, 3 * P->cpu);
    printf("status=%d tag=%s\nmsg=%s\nnote=%s\n", r[0].status, r[0].tag.c_str(), r[0].msg.c_str(), r[0].note.c_str());
    return failing(r[0].status) ? 1 : r[0].status == ST_TIMEOUT ? 2 : 0;
  }
  long N = (long) ((tier == "thorough" ? P->thorough : P->quick) * scale);
  double wall = (tier == "thorough" ? P->thoroughWall : P->quickWall);
  double t0 = now();
  long next = 0, done = 0; long tot[8] = {0};
  std::map<std::string, long> labels, incl, knownHits;
  std::set<uint64_t> distinct; std::vector<std::string> samples;
  std::vector<Result> fails, timeouts, libCrash, unsolved; Result incSample; bool haveInc = false; Result knownSample; std::map<std::string, long> failTags;
  if (only >= 0) { next = only; N = only + 1; }
  size_t active = 0; bool stop = false, wallHit = false; int flaky = 0; std::vector<std::string> flakyMsg;
  // failing seeds found in batches are re-run alone
  while ((next < N && !stop) || active) {
    for (size_t i = 0; i < cs.size() && next < N && !stop; i++) {
      if (cs[i].pid) continue;
      Child &c = cs[i];
      int b = (int) std::min<long>(only >= 0 ? 1 : P->batch, N - next);
      c.idx = next; next += b;
      memset((void *) c.slot, 0, sizeof(Slot));
      c.killed = false; c.start = now(); c.wallLimit = b * (10 * P->cpu) + 60;
      fflush(NULL);
      pid_t pid = fork();
      if (pid == 0) {
        childInit(c.errfd);
        std::map<std::string, int> l, in;
        Slot *S = c.slot; watchCrash(S);
        for (int k = 0; k < b; k++) {
          S->caseIdx = c.idx + k; setCpu(P->cpu);
          runOne(*P, S, caseSeed(seed, id, c.idx + k), NULL, l, in);
          S->done++;
          copys(S->labels, sizeof S->labels, fmtCounts(l)); copys(S->incl, sizeof S->incl, fmtCounts(in));
          if (S->status == ST_FAIL) { fflush(NULL); _exit(1); }
        }
        fflush(NULL);
        _exit(0);
      }
      c.pid = pid; active++;
    }
    int w, wst; if (!reap(cs, w, wst)) break;
    active--;
    Child &c = cs[w]; Slot *S = c.slot; Result R; finish(c, wst, R);
    done += S->done; for (int k = 0; k < 8; k++) tot[k] += S->st[k];
    parseCounts(S->labels, labels); parseCounts(S->incl, incl);
    for (int k = 0; k < S->ndist; k++) distinct.insert(S->dist[k]);
    if (S->sample[0] && samples.size() < 6 && (samples.empty() || (done % 7) == 0)) samples.push_back(S->sample);
    if (R.status == ST_INC && !haveInc) { haveInc = true; incSample = R; }
    if (R.status == ST_CRASH || R.status == ST_TIMEOUT) { tot[R.status]++; done++; }
    if (R.status == ST_TIMEOUT) timeouts.push_back(R);
    if (R.status == ST_INC && R.msg.find("UnsolvedError") != std::string::npos) unsolved.push_back(R);
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 77) { libCrash.push_back(R); incl[S->tag]++; tot[ST_CRASH]--; tot[ST_INC]++; continue; }
    if (failing(R.status)) {
      failTags[R.tag]++;
      bool isKnown = false;
      for (auto &k : known) if (R.tag.compare(0, k.size(), k) == 0) { isKnown = true; knownHits[k]++; }
      if (!isKnown) {
        // the recorded choices decide: they are replayed in fresh processes
        if (fails.size() < 20) fails.push_back(R);
        if (stopFirst && fails.size() >= 4) stop = true;
      }
    }
    // cases of a batch that did not run because an earlier one failed are dropped (counted by done)
    if (now() - t0 > wall) { stop = true; wallHit = true; }
  }
  // crashes inside the libraries: inconclusive while rare
  if ((double) libCrash.size() > 2 + 0.0005 * done) for (auto &R : libCrash) if (fails.size() < 20) fails.push_back(R);
  // confirm failures
  std::string vtag, vmsg, vnote; std::vector<uint64_t> vrec; int ssteps = 0; bool violation = false; std::vector<uint64_t> orig; int vstatus = 0;
  for (auto &R : fails) {
    auto r = runMany(*P, cs, {R.rec, R.rec, R.rec}, P->cpu * 2);
    bool all = true; for (auto &x : r) if (!failing(x.status)) all = false;
    if (!all) { flaky++; flakyMsg.push_back(R.tag + ": " + R.msg.substr(0, 300)); continue; }
    violation = true; vstatus = ST_FAIL; vtag = r[0].tag; orig = R.rec; vrec = R.rec; vmsg = r[0].msg; vnote = r[0].note;
    double budget = getenv("PBT_NOSHRINK") ? 0 : (tier == "thorough" ? 180 : 45);
    if (budget > 0) vrec = shrink(*P, cs, R.rec, vtag, ST_FAIL, budget, P->cpu, ssteps);
    auto rr = runMany(*P, cs, {vrec, vrec, vrec}, P->cpu * 2);
    bool ok = true; for (auto &x : rr) if (!failing(x.status) || x.tag != vtag) ok = false;
    if (!ok) vrec = R.rec; else { vmsg = rr[0].msg; vnote = rr[0].note; }
    break;
  }
  // a case that exhausts its CPU limit is inconclusive; only when several of them
  // do so reproducibly (with a doubled limit) is it non-termination
  int confirmedHangs = 0;
  if (!violation && timeouts.size() >= 3 && (double) timeouts.size() >= 0.02 * (done + 1) && only < 0) {
    std::vector<std::vector<uint64_t>> rs; for (size_t i = 0; i < timeouts.size() && i < 8; i++) rs.push_back(timeouts[i].rec);
    auto r = runMany(*P, cs, rs, P->cpu * 2);
    for (size_t i = 0; i < r.size(); i++) if (r[i].status == ST_TIMEOUT) { confirmedHangs++; if (!violation) { vrec = rs[i]; } }
    if (confirmedHangs >= 3 && (double) confirmedHangs / rs.size() * timeouts.size() >= 0.02 * (done + 1)) {
      violation = true; vstatus = ST_TIMEOUT; vtag = "nontermination"; orig = vrec;
      vmsg = fmt("%d of %ld cases do not finish within %g CPU seconds (normally a small fraction of a second)", (int) timeouts.size(), done, 2 * P->cpu);
      // description of the input: the replay prints it
    }
  }
  long decided = tot[ST_PASS] + tot[ST_FAIL] + tot[ST_CRASH];
  double incFrac = (double) (tot[ST_INC] + tot[ST_TIMEOUT]) / std::max<long>(1, decided + tot[ST_INC] + tot[ST_TIMEOUT]);
  if (!violation && only < 0 && decided + tot[ST_INC] >= 20 && incFrac > P->maxInconclusive) {
    violation = true; vstatus = ST_INC; vtag = "no-longer-decides";
    vmsg = fmt("%ld of %ld cases end without an answer (%.0f%%, at most %.0f%% expected); first reason: %s", tot[ST_INC] + tot[ST_TIMEOUT], decided + tot[ST_INC] + tot[ST_TIMEOUT],
               100 * incFrac, 100 * P->maxInconclusive, incSample.msg.c_str());
    vnote = incSample.note; vrec = orig = incSample.rec;
  }
  // giving up with an UnsolvedError: about 1 case in 5000 on the unchanged tree
  if (!violation && only < 0 && (double) unsolved.size() > 4 + 0.002 * done) {
    violation = true; vstatus = ST_INC; vtag = "unsolved";
    vmsg = fmt("%d of %ld cases end in an UnsolvedError although nothing is wrong with the problem", (int) unsolved.size(), done);
    vnote = unsolved[0].note; vrec = orig = unsolved[0].rec;
  }
  std::ostringstream o;
  o << "{\n \"id\":\"" << id << "\",\"seed\":" << seed << ",\"tier\":\"" << tier << "\",\n \"cases\":" << done << ",\"planned\":" << N
    << ",\"pass\":" << tot[ST_PASS] << ",\"discard\":" << tot[ST_DISCARD] << ",\"inconclusive\":" << tot[ST_INC] << ",\"timeout\":" << tot[ST_TIMEOUT]
    << ",\"fail\":" << tot[ST_FAIL] << ",\"crash\":" << tot[ST_CRASH] << ",\"flaky\":" << flaky << ",\"wall_limited\":" << (wallHit ? "true" : "false")
    << ",\n \"distinct_nontrivial\":" << distinct.size() << ",\"wall_s\":" << now() - t0 << ",\n \"rule\":\"" << esc(P->rule) << "\",\n \"labels\":{";
  bool first = true; for (auto &l : labels) { o << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; first = false; }
  o << "},\n \"inconclusive_reasons\":{"; first = true;
  for (auto &l : incl) { o << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; first = false; }
  o << "},\n \"known_hits\":{"; first = true;
  for (auto &l : knownHits) { o << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; first = false; }
  o << "},\n \"fail_tags\":{"; first = true;
  for (auto &l : failTags) { o << (first ? "" : ",") << "\"" << esc(l.first) << "\":" << l.second; first = false; }
  o << "},\n \"flaky_msgs\":["; first = true;
  for (auto &l : flakyMsg) { o << (first ? "" : ",") << "\"" << esc(l) << "\""; first = false; }
  o << "],\n \"timeout_notes\":["; first = true;
  for (size_t i = 0; i < timeouts.size() && i < 5; i++) { o << (first ? "" : ",") << "\"" << esc(timeouts[i].note) << "\""; first = false; }
  o << "],\n \"samples\":["; first = true;
  for (auto &s : samples) { o << (first ? "" : ",\n  ") << "\"" << esc(s) << "\""; first = false; }
  o << "],\n \"violation\":" << (violation ? "true" : "false");
  if (violation) {
    o << ",\n \"vtag\":\"" << esc(vtag) << "\",\"vmsg\":\"" << esc(vmsg) << "\",\n \"vnote\":\"" << esc(vnote) << "\",\n \"shrink_steps\":" << ssteps
      << ",\"vstatus\":" << vstatus << ",\n \"choices\":[";
    for (size_t i = 0; i < vrec.size(); i++) o << (i ? "," : "") << vrec[i];
    o << "],\n \"original\":[";
    for (size_t i = 0; i < orig.size(); i++) o << (i ? "," : "") << orig[i];
    o << "]";
  }
  o << "\n}\n";
  if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
  return violation ? 1 : 0;
}
