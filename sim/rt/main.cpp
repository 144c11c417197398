// Driver inside the simulator binary: runs cases (one process per variant), compares histories, prints findings.
#include "rt.h"
#include "shared.h"
#include "scenario.h"

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

static std::vector<Scenario>& table() {
  static std::vector<Scenario> t;
  return t;
}
RegisterScenario::RegisterScenario(const char* name, void (*fn)(), const char* tags) {
  table().push_back(Scenario{name, fn, tags});
}
static const Scenario* find(const std::string& n) {
  for (auto& s : table())
    if (n == s.name) return &s;
  return nullptr;
}

static double now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
}
static std::string esc(const char* s) {
  std::string o;
  for (; *s; s++) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c > 126)
      o += ' ';
    else
      o += char(c);
  }
  return o;
}
static std::vector<std::string> split(const std::string& s, char d) {
  std::vector<std::string> v;
  std::string c;
  for (char ch : s)
    if (ch == d) {
      if (!c.empty()) v.push_back(c);
      c.clear();
    } else
      c += ch;
  if (!c.empty()) v.push_back(c);
  return v;
}

struct Spec {
  std::string scen;
  uint64_t seed = 0;
  std::vector<std::string> variants;
  std::map<std::string, Overrides> vo;  // per variant ("" = all)
};
struct Out {
  bool aborted = false;
  bool ran = false;
  std::vector<FailRec> fails;
  uint64_t hist = 0;
  int nhist = 0;
  std::vector<HistRec> h;
  std::vector<ParamRec> params;
  std::vector<EvRec> ev;
  uint64_t steps = 0, il = 0;
  bool evFull = false;
};
static int shm_fd = -1, err_fd = -1;
static unsigned g_wall = 20;
static std::vector<std::string> serial_bins;  // for variants ser0, ser1

static void reset_shared() {
  sh->status = ST_NONE;
  sh->nfail = sh->failTotal = sh->nhist = sh->nprobe = sh->nstat = sh->nparam = sh->nev = sh->max_team = 0;
  sh->histHash = sh->steps = sh->il_hash = 0;
  memset(sh->cnt, 0, sizeof sh->cnt);
  sh->phase[0] = 0;
}

static void child_main(const Scenario* sc, uint64_t seed, const char* variant) {
  dup2(err_fd, 2);
  dup2(err_fd, 1);
  run_variant(seed, variant, sc->fn, g_wall);
  _exit(0);
}

static std::string write_overrides(const Overrides& o) {
  std::string s;
  char b[96];
  if (o.explicit_mode) s += "explicit\n";
  for (auto& p : o.params) {
    snprintf(b, sizeof b, "set %s %d\n", p.first.c_str(), p.second);
    s += b;
  }
  for (auto& e : o.evs) {
    snprintf(b, sizeof b, "ev %c %lu %lu\n", e.kind, (unsigned long)e.pos, (unsigned long)e.val);
    s += b;
  }
  return s;
}

static Out run_one(const Spec& sp, const std::string& variant) {
  reset_shared();
  if (ftruncate(err_fd, 0)) {
  }
  lseek(err_fd, 0, SEEK_SET);
  ovr = Overrides();
  auto it = sp.vo.find("");
  if (it != sp.vo.end()) ovr = it->second;
  it = sp.vo.find(variant);
  if (it != sp.vo.end()) {
    for (auto& p : it->second.params) ovr.params.insert(ovr.params.begin(), p);
    ovr.evs = it->second.evs;
    ovr.explicit_mode = it->second.explicit_mode;
  }
  const Scenario* sc = find(sp.scen);
  const bool ser = variant.compare(0, 3, "ser") == 0;
  std::string ofile;
  Out o;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    if (ser) {
      size_t k = size_t(variant[3] - '0');
      char a[32], b[32], c[32], d[32];
      snprintf(a, sizeof a, "%d", shm_fd);
      snprintf(b, sizeof b, "%lu", (unsigned long)sp.seed);
      snprintf(c, sizeof c, "%d", err_fd);
      snprintf(d, sizeof d, "%u", g_wall);
      std::string ov = write_overrides(ovr);
      execl(serial_bins[k].c_str(), serial_bins[k].c_str(), "child", a, c, b, sp.scen.c_str(), "calm", d, ov.c_str(), (char*)nullptr);
      _exit(98);
    }
    child_main(sc, sp.seed, variant.c_str());
  }
  int st = 0;
  waitpid(pid, &st, 0);
  o.ran = true;
  if (sh->status == ST_NONE) {  // died without a report
    FailRec f{};
    snprintf(f.cls, sizeof f.cls, "%s", WIFEXITED(st) && WEXITSTATUS(st) >= 97 ? "infra" : "crash");
    snprintf(f.msg, sizeof f.msg, "the process ended with wait status %d", st);
    snprintf(f.phase, sizeof f.phase, "%s", sh->phase);
    f.count = 1;
    o.fails.push_back(f);
    o.aborted = true;
  }
  o.aborted = o.aborted || sh->status == ST_ABORTED;
  for (int i = 0; i < sh->nfail; i++) {
    FailRec f = sh->fails[i];
    if (!strcmp(f.cls, "crash")) {
      char buf[512] = {0};
      off_t n = lseek(err_fd, 0, SEEK_END);
      off_t from = n > 300 ? n - 300 : 0;
      ssize_t k = pread(err_fd, buf, 300, from);
      if (k > 0) {
        buf[k] = 0;
        size_t l = strlen(f.msg);
        snprintf(f.msg + l, sizeof f.msg - l, ": %s", buf);
      }
    }
    o.fails.push_back(f);
  }
  o.hist = sh->histHash;
  o.nhist = sh->nhist;
  int n = sh->nhist < kMaxHist ? sh->nhist : kMaxHist;
  o.h.assign(sh->hist, sh->hist + n);
  o.params.assign(sh->params, sh->params + sh->nparam);
  int m = sh->nev < kMaxEv ? sh->nev : kMaxEv;
  o.evFull = sh->nev > kMaxEv;
  o.ev.assign(sh->ev, sh->ev + m);
  o.steps = sh->steps;
  o.il = sh->il_hash;
  return o;
}

struct Finding {
  std::string cls, msg, phase, variant;
  int count = 1;
};
static void compare(const Out& a, const Out& b, const std::string& vb, std::vector<Finding>& out) {
  if (a.aborted || b.aborted) return;
  if (a.hist == b.hist && a.nhist == b.nhist) return;
  size_t n = a.h.size() < b.h.size() ? a.h.size() : b.h.size();
  size_t i = 0;
  while (i < n && a.h[i].h == b.h[i].h && !strcmp(a.h[i].label, b.h[i].label)) i++;
  char m[300];
  if (i < n)
    snprintf(m, sizeof m, "histories differ from entry %zu on (%s in the calm run, %s here; %d and %d entries)", i, a.h[i].label, b.h[i].label, a.nhist, b.nhist);
  else
    snprintf(m, sizeof m, "histories have %d and %d entries", a.nhist, b.nhist);
  Finding f;
  f.cls = "diff:" + (vb.compare(0, 3, "ser") == 0 ? std::string("ser") : vb);
  f.msg = m;
  f.phase = i < n ? b.h[i].label : "end";
  f.variant = vb;
  out.push_back(f);
}

static std::vector<Finding> run_case(const Spec& sp, std::map<std::string, Out>& outs) {
  std::vector<Finding> fs;
  const Out* calm = nullptr;
  for (auto& v : sp.variants) {
    outs[v] = run_one(sp, v);
    Out& o = outs[v];
    for (auto& f : o.fails) {
      Finding x;
      x.cls = f.cls;
      x.msg = f.msg;
      x.phase = f.phase;
      x.variant = v;
      x.count = f.count;
      fs.push_back(x);
    }
    if (v == "calm")
      calm = &outs[v];
    else if (calm && v != "all")
      compare(*calm, o, v, fs);
  }
  return fs;
}

static bool cls_match(const std::vector<std::string>& want, const std::string& c) {
  for (auto& w : want)
    if (w == "*" || w == c || (w.back() == '*' && c.compare(0, w.size() - 1, w, 0, w.size() - 1) == 0)) return true;
  return false;
}

static Spec read_spec(const char* path, std::string& text) {
  Spec sp;
  FILE* f = fopen(path, "r");
  if (!f) {
    fprintf(stderr, "cannot read %s\n", path);
    exit(2);
  }
  char line[512];
  while (fgets(line, sizeof line, f)) {
    text += line;
    char a[128], b[128], c[128], d[128];
    int n = sscanf(line, "%127s %127s %127s %127s", a, b, c, d);
    if (n < 1 || a[0] == '#') continue;
    std::string k = a;
    if (k == "scen" && n > 1) sp.scen = b;
    else if (k == "seed" && n > 1) sp.seed = strtoull(b, nullptr, 0);
    else if (k == "variants" && n > 1) sp.variants = split(b, ',');
    else if (k == "set" && n > 2) sp.vo[""].params.push_back({b, atoi(c)});
    else if (k == "explicit" && n > 1) {
      sp.vo[b].explicit_mode = true;
      sp.vo[b].params.push_back({std::string(b) + ".explicit", 1});
    } else if (k == "ev" && n > 3) {
      // ev <variant> <kind> <pos>:<val>
      EvRec e{};
      e.kind = c[0];
      unsigned long p = 0, v = 0;
      sscanf(d, "%lu:%lu", &p, &v);
      e.pos = p;
      e.val = v;
      sp.vo[b].evs.push_back(e);
    }
  }
  fclose(f);
  return sp;
}

static void print_case_json(const Spec& sp, const std::map<std::string, Out>& outs, const std::vector<Finding>& fs) {
  printf("{\"scen\":\"%s\",\"seed\":%lu,\"findings\":[", sp.scen.c_str(), (unsigned long)sp.seed);
  for (size_t i = 0; i < fs.size(); i++)
    printf("%s{\"cls\":\"%s\",\"msg\":\"%s\",\"phase\":\"%s\",\"variant\":\"%s\",\"count\":%d}", i ? "," : "", esc(fs[i].cls.c_str()).c_str(),
           esc(fs[i].msg.c_str()).c_str(), esc(fs[i].phase.c_str()).c_str(), fs[i].variant.c_str(), fs[i].count);
  printf("],\"variants\":{");
  bool first = true;
  for (auto& kv : outs) {
    const Out& o = kv.second;
    printf("%s\"%s\":{\"hist\":\"%016lx\",\"nhist\":%d,\"steps\":%lu,\"il\":\"%016lx\",\"aborted\":%d,\"evfull\":%d,\"params\":[", first ? "" : ",",
           kv.first.c_str(), (unsigned long)o.hist, o.nhist, (unsigned long)o.steps, (unsigned long)o.il, int(o.aborted), int(o.evFull));
    first = false;
    for (size_t i = 0; i < o.params.size(); i++)
      printf("%s[\"%s\",%d,%d,%d,%d]", i ? "," : "", o.params[i].name, o.params[i].lo, o.params[i].hi, o.params[i].calm, o.params[i].val);
    printf("],\"ev\":[");
    for (size_t i = 0; i < o.ev.size(); i++) printf("%s[\"%c\",%lu,%lu]", i ? "," : "", o.ev[i].kind, (unsigned long)o.ev[i].pos, (unsigned long)o.ev[i].val);
    printf("]}");
  }
  printf("}}\n");
}

int main(int argc, char** argv) {
  if (argc >= 2 && !strcmp(argv[1], "list")) {
    for (auto& s : table()) printf("%s %s\n", s.name, s.tags);
    return 0;
  }
  if (argc >= 8 && !strcmp(argv[1], "child")) {  // serial twin: child shmfd errfd seed scen variant wall overrides
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(argv[2]), 0);
    err_fd = atoi(argv[3]);
    g_wall = unsigned(atoi(argv[7]));
    if (argc > 8) {
      for (auto& l : split(argv[8], '\n')) {
        auto w = split(l, ' ');
        if (w.size() == 3 && w[0] == "set") ovr.params.push_back({w[1], atoi(w[2].c_str())});
      }
    }
    const Scenario* sc = find(argv[5]);
    if (!sc) _exit(99);
    child_main(sc, strtoull(argv[4], nullptr, 10), argv[6]);
  }
  shm_fd = memfd_create("sim", 0);
  err_fd = memfd_create("err", 0);
  if (shm_fd < 0 || err_fd < 0 || ftruncate(shm_fd, sizeof(Shared))) {
    perror("memfd");
    return 2;
  }
  sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, shm_fd, 0);
  std::map<std::string, std::string> arg;
  for (int i = 2; i < argc; i++) {
    const char* e = strchr(argv[i], '=');
    if (e) arg[std::string(argv[i], size_t(e - argv[i]))] = e + 1;
  }
  serial_bins = split(arg["serial"], ',');
  if (!arg["wall"].empty()) g_wall = unsigned(atoi(arg["wall"].c_str()));
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "one") {
    std::string text;
    Spec sp = read_spec(arg["spec"].c_str(), text);
    if (!find(sp.scen)) {
      fprintf(stderr, "unknown scenario %s\n", sp.scen.c_str());
      return 2;
    }
    std::map<std::string, Out> outs;
    auto fs = run_case(sp, outs);
    print_case_json(sp, outs, fs);
    return 0;
  }
  if (mode == "batch") {
    const uint64_t S = strtoull(arg["seed"].c_str(), nullptr, 10);
    const long from = atol(arg["from"].c_str()), step = atol(arg["step"].c_str()), maxn = atol(arg["max"].c_str());
    const double until = now() + atof(arg["seconds"].c_str());
    const int maxfail = arg["maxfail"].empty() ? 5 : atoi(arg["maxfail"].c_str());
    auto scens = split(arg["scen"], ','), variants = split(arg["variants"], ','), cls = split(arg["cls"], ',');
    std::map<std::string, double> stats;
    std::map<std::string, long> probes, cases;
    std::map<std::string, uint64_t> cnt, vruns, other;
    std::set<uint64_t> il, hists;
    uint64_t total_steps = 0; uint64_t longest = 0;
    long ncase = 0, nfail = 0;
    int max_team = 0;
    for (long i = from; ncase < maxn && now() < until && nfail < maxfail; i += step) {
      Spec sp;
      sp.scen = scens[size_t(i) % scens.size()];
      sp.seed = mix64(mix64(S) ^ (uint64_t(i) * 0x9e3779b97f4a7c15ull));
      sp.variants = variants;
      std::vector<Finding> fs;
      std::map<std::string, Out> outs;
      const Out* calm = nullptr;
      for (auto& v : sp.variants) {
        Out& o = outs[v] = run_one(sp, v);
        vruns[v]++;
        for (int k = 0; k < C_N; k++) cnt[kCntNames[k]] += sh->cnt[k];
        for (int k = 0; k < sh->nprobe; k++) probes[sh->probes[k].name] += sh->probes[k].n;
        for (int k = 0; k < sh->nstat; k++) stats[sh->stats[k].name] += sh->stats[k].sum;
        if (sh->max_team > max_team) max_team = sh->max_team;
        total_steps += o.steps;
        if (o.steps > longest) longest = o.steps;
        if (o.il) il.insert(o.il);
        if (o.nhist > 0) hists.insert(o.hist);
        for (auto& f : o.fails) {
          Finding x;
          x.cls = f.cls, x.msg = f.msg, x.phase = f.phase, x.variant = v, x.count = f.count;
          fs.push_back(x);
        }
        if (v == "calm")
          calm = &o;
        else if (calm && v != "all")
          compare(*calm, o, v, fs);
      }
      ncase++;
      cases[sp.scen]++;
      bool hit = false;
      for (auto& f : fs) {
        if (!cls_match(cls, f.cls)) {
          other[f.cls]++;
          continue;
        }
        hit = true;
        printf("FAIL {\"case\":%ld,\"seed\":%lu,\"scen\":\"%s\",\"variant\":\"%s\",\"cls\":\"%s\",\"phase\":\"%s\",\"msg\":\"%s\"}\n", i,
               (unsigned long)sp.seed, sp.scen.c_str(), f.variant.c_str(), esc(f.cls.c_str()).c_str(), esc(f.phase.c_str()).c_str(), esc(f.msg.c_str()).c_str());
      }
      if (hit) nfail++;
    }
    printf("SUM {\"cases\":%ld,\"steps\":%lu,\"longest_run_steps\":%lu,\"max_team\":%d", ncase, (unsigned long)total_steps, (unsigned long)longest, max_team);
    auto dump = [](const char* n, auto& m, const char* fmt) {
      printf(",\"%s\":{", n);
      bool f = true;
      for (auto& kv : m) {
        printf("%s\"%s\":", f ? "" : ",", esc(kv.first.c_str()).c_str());
        printf(fmt, kv.second);
        f = false;
      }
      printf("}");
    };
    dump("cnt", cnt, "%lu");
    dump("variants", vruns, "%lu");
    dump("other", other, "%lu");
    dump("probes", probes, "%ld");
    dump("scen", cases, "%ld");
    dump("stats", stats, "%.17g");
    printf("}\n");
    if (!arg["hashes"].empty()) {
      FILE* f = fopen(arg["hashes"].c_str(), "wb");
      if (f) {
        uint64_t a = il.size(), b = hists.size();
        fwrite(&a, 8, 1, f);
        fwrite(&b, 8, 1, f);
        for (auto x : il) fwrite(&x, 8, 1, f);
        for (auto x : hists) fwrite(&x, 8, 1, f);
        fclose(f);
      }
    }
    return 0;
  }
  fprintf(stderr, "usage: simrun list | one spec=FILE | batch ...\n");
  return 2;
}
