// Driver: seeded batches of simulated runs, minimisation, replay files.
#include "core.h"
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <fnmatch.h>
#include <sys/personality.h>
#include <set>
#include <unordered_set>

void mem_setup();
// ---------------------------------------------------------------- symbols
static std::vector<std::pair<uintptr_t,uintptr_t>> bases; // (base,end) per copy
static std::vector<std::pair<uintptr_t,std::string>> syms;  // offset -> name
std::string symname(uintptr_t pc){
  for (auto &b : bases) if (pc >= b.first && pc < b.second) {
    uintptr_t o = pc - b.first; auto it = std::upper_bound(syms.begin(), syms.end(), std::make_pair(o, std::string("\xff")));
    if (it == syms.begin()) return "?"; --it; std::string n = it->second; 
    size_t k; for (const char *suf : {".constprop", ".part", ".isra", ".cold"}) if ((k = n.find(suf)) != std::string::npos) n.resize(k);
    if (n.rfind("_SCOTCH", 0) == 0) n = n.substr(7); 
    static const bool off = getenv("SIM_OFFSETS") != nullptr; if (off) { char t[32]; snprintf(t, sizeof t, "+@%lx", (unsigned long)(o - 1)); n += t; }
    return n; }
  Dl_info di; if (dladdr((void*)pc, &di) && di.dli_sname) return di.dli_sname;
  return "?";
}
static void load_syms(const char *path){
  int fd = open(path, O_RDONLY); struct stat st; fstat(fd, &st); char *m = (char*)mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
  Elf64_Ehdr *e = (Elf64_Ehdr*)m; Elf64_Shdr *sh = (Elf64_Shdr*)(m + e->e_shoff);
  for (int i = 0; i < e->e_shnum; i++) if (sh[i].sh_type == SHT_SYMTAB) { Elf64_Sym *s = (Elf64_Sym*)(m + sh[i].sh_offset); size_t n = sh[i].sh_size / sizeof *s; const char *str = m + sh[sh[i].sh_link].sh_offset;
    for (size_t j = 0; j < n; j++) if (ELF64_ST_TYPE(s[j].st_info) == STT_FUNC && s[j].st_value) syms.push_back({s[j].st_value, str + s[j].st_name}); }
  std::sort(syms.begin(), syms.end()); munmap(m, st.st_size);
}
static int addbase(struct dl_phdr_info *i, size_t, void *d){ std::string p = i->dlpi_name ? i->dlpi_name : ""; if (p == *(std::string*)d) { uintptr_t hi = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) hi = std::max<uintptr_t>(hi, i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz); bases.push_back({i->dlpi_addr, i->dlpi_addr + hi}); return 1; } return 0; }
// ---------------------------------------------------------------- runs
static const u64 MAXDEC = 400000;
static Result *newresult(){ size_t sz = sizeof(Result) + MAXDEC * sizeof(Dec); Result *r = (Result*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r == MAP_FAILED) { perror("mmap"); exit(3); } return r; }
struct Viol { std::string kind, where, msg; int member; u64 hash; };
struct Group { std::string sub; int widx; u64 seed; bool replay; std::vector<std::vector<Dec>> decs; };  // decs per member when replay
static Result *RA, *RB;   // current, member 0
static void run_one(RunSpec &s, Result *r){
  u64 md = MAXDEC; memset(r, 0, offsetof(Result, dec)); r->maxdec = md;
  fflush(nullptr);
  pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); R = r; run_child(s); _exit(0); }
  int st; while (waitpid(p, &st, 0) < 0); 
  if (r->status == 0) { r->status = 2; snprintf(r->kind, sizeof r->kind, "crash"); snprintf(r->msg, sizeof r->msg, "simulated process died (status %d)", st); }
}
static bool pubcmp(const Result *a, const Result *b, std::string &msg){
  std::map<int, const Pub*> m; for (int i = 0; i < a->npub; i++) m[a->pub[i].slot] = &a->pub[i];
  for (int i = 0; i < b->npub; i++) { auto it = m.find(b->pub[i].slot); if (it == m.end()) continue; if (it->second->hash != b->pub[i].hash || it->second->len != b->pub[i].len) { char t[200]; snprintf(t, sizeof t, "result %d (rank %d) differs between the reference run and the run under this schedule", b->pub[i].slot % 1000, b->pub[i].slot / 1000); msg = t; return false; } }
  return true;
}
struct Stats { u64 groups, runs, viol; u64 nacc, nsched, nswitch, npreempt, ndeliver, nmsg, ncoll, nspurious, nalloc, nallocfail, nthread, nthreadfail, niofault, nlate, nrndv, nany, simus; u64 detpairs, detbad; int nprobe; Probe probe[MAXPROBES]; u64 nsub; Probe sub[64]; volatile int stop; volatile int lock; int have; u64 vseed; int vwidx; char known[32][400]; u64 knownn[32]; int nknown; char samples[8][1200]; int nsamples; u64 cfgruns; };
static Stats *ST; static u64 *HS; // shared hash tables: sched and state
static const u64 HN = 1u << 22; struct HT { u64 n; u64 t[1]; }; static HT *hts[3];
static bool ht_add(HT *h, u64 v){ if (!v) v = 1; u64 i = mix64(v) & (HN - 1); for (int k = 0; k < 64; k++, i = (i + 1) & (HN - 1)) { u64 o = __sync_val_compare_and_swap(&h->t[i], 0, v); if (o == v) return false; if (o == 0) { __sync_fetch_and_add(&h->n, 1); return true; } } return false; }
static void lock(){ while (__sync_lock_test_and_set(&ST->lock, 1)) usleep(10); } static void unlock(){ __sync_lock_release(&ST->lock); }
static void addstats(const Result *r, int member){
  lock(); ST->runs++; ST->nacc += r->nacc; ST->nsched += r->nsched; ST->nswitch += r->nswitch; ST->npreempt += r->npreempt; ST->ndeliver += r->ndeliver; ST->nmsg += r->nmsg; ST->ncoll += r->ncoll; ST->nspurious += r->nspurious; ST->nalloc += r->nalloc; ST->nallocfail += r->nallocfail; ST->nthread += r->nthread; ST->nthreadfail += r->nthreadfail; ST->niofault += r->niofault; ST->nlate += r->nlate; ST->nrndv += r->nrndv; ST->nany += r->nany; ST->simus += r->nsched;
  for (int i = 0; i < r->nprobe; i++) { int j; for (j = 0; j < ST->nprobe; j++) if (!strcmp(ST->probe[j].name, r->probe[i].name)) break; if (j == ST->nprobe) { if (j == MAXPROBES) continue; ST->nprobe++; strcpy(ST->probe[j].name, r->probe[i].name); ST->probe[j].n = 0; } ST->probe[j].n += r->probe[i].n; }
  unlock();
  ht_add(hts[0], mix64(r->schedhash + r->hash * 3)); ht_add(hts[1], r->hash); if (r->statehash) ht_add(hts[2], r->statehash);
}
// Runs a group; true when a violation was found.
static bool run_group(Group &g, Viol &v, std::vector<std::vector<Dec>> *outdecs, bool stats){
  int members = WL[g.widx]->members; if (members < 1) members = 1;
  if (outdecs) outdecs->assign(members, {});
  long pa = 0, pt = 0, pio = 0;
  for (int m = 0; m < members; m++) {
    RunSpec s; s.sub = g.sub; s.widx = g.widx; s.seed = g.seed; s.member = m; s.replay = g.replay; s.prev_nalloc = pa; s.prev_nthread = pt; s.prev_io = pio;
    if (g.replay) { for (auto &d : g.decs[0]) if (d.stream == 'c') s.decs.push_back(d); for (auto &d : g.decs[m]) if (d.stream != 'c') s.decs.push_back(d); }
    Result *r = m == 0 ? RB : RA; run_one(s, r);
    if (stats) addstats(r, m);
    if (outdecs) for (u64 i = 0; i < r->ndec; i++) { if (r->dec[i].stream == 'c' && m) continue; (*outdecs)[m].push_back(r->dec[i]); }
    if (m == 0) { pa = r->nalloc; pt = r->nthread; }
    if (r->status == 2) { v.kind = r->kind; v.where = r->where; v.msg = std::string(r->msg) + (r->cfgdesc[0] ? std::string("\n  configuration: ") + r->cfgdesc : ""); v.member = m; v.hash = r->hash; return true; }
    std::string msg; if (m > 0 && !pubcmp(RB, RA, msg)) { v.kind = "result-differs"; v.where = ""; v.msg = msg + (r->cfgdesc[0] ? std::string("\n  configuration: ") + r->cfgdesc : ""); v.member = m; v.hash = mix64(RB->hash + RA->hash); return true; }
  }
  return false;
}
static u64 group_hash(){ return mix64(RA->hash * 3 + RB->hash); }
// ---------------------------------------------------------------- known findings
struct Known { std::string prop, sub, kind, where, msg, text; };
static std::vector<Known> KN;
static int known(const std::string &prop, const std::string &sub, const Viol &v){ for (size_t i = 0; i < KN.size(); i++) { auto &k = KN[i]; if ((k.prop == prop) && !fnmatch(k.sub.c_str(), sub.c_str(), 0) && !fnmatch(k.kind.c_str(), v.kind.c_str(), 0) && !fnmatch(k.where.c_str(), v.where.c_str(), 0) && !fnmatch(k.msg.c_str(), v.msg.c_str(), 0)) return (int)i; } return -1; }
static void load_known(const char *f){ FILE *fp = fopen(f, "r"); if (!fp) return; char b[4000]; while (fgets(b, sizeof b, fp)) { if (b[0] == '#' || b[0] == '\n') continue; std::vector<std::string> v; std::string s(b); while (!s.empty() && s.back() == '\n') s.pop_back(); size_t p = 0, q; while ((q = s.find('\t', p)) != std::string::npos) { v.push_back(s.substr(p, q - p)); p = q + 1; } v.push_back(s.substr(p)); if (v.size() >= 7 && v[0] == "known") KN.push_back(Known{v[1], v[2], v[3], v[4], v[5], v[6]}); } fclose(fp); }
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void write_replay(const char *path, const std::string &prop, const Group &g, const Viol &v, const std::vector<std::vector<Dec>> &d){
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
  fprintf(f, "simreplay 1\nprop %s\nsub %s\nseed %llu\nmember %d\nkind %s\nwhere %s\nhash %llx\n", prop.c_str(), g.sub.c_str(), (unsigned long long)g.seed, v.member, v.kind.c_str(), v.where.empty() ? "-" : v.where.c_str(), (unsigned long long)v.hash);
  for (size_t m = 0; m < d.size(); m++) for (auto &x : d[m]) fprintf(f, "%zu %c %llu %u\n", m, x.stream, (unsigned long long)x.idx, x.val);
  fprintf(f, "end\n"); 
  { std::string s = v.msg; size_t p = 0; while (p <= s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size(); fprintf(f, "# %s\n", s.substr(p, q - p).c_str()); p = q + 1; } }
  fclose(f);
}
static int find_sub(const std::string &prop, const std::string &sub){ for (size_t i = 0; i < WL.size(); i++) if (prop == WL[i]->name && sub == WL[i]->sub) return (int)i; return -1; }
static std::string jstr(const std::string &s){ std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }

static void minimise(const std::string &prop, Group &g, Viol &v, std::vector<std::vector<Dec>> &d, double budget){
  double t0 = now(); int tries = 0; Viol base = v; 
  auto test = [&](std::vector<std::vector<Dec>> &cand) -> bool { tries++; Group h = g; h.replay = true; h.decs = cand; Viol w; if (run_group(h, w, nullptr, false) && w.kind == base.kind && w.where == base.where && known(prop, g.sub, w) < 0) { v = w; return true; } return false; };
  auto drop = [&](std::function<bool(const Dec&)> f){ auto c = d; bool any = false; for (auto &x : c) { size_t n = x.size(); x.erase(std::remove_if(x.begin(), x.end(), f), x.end()); any |= x.size() != n; } if (any && test(c)) d = c; };
  drop([](const Dec &x){ return x.stream == 's' || x.stream == 'p'; });
  drop([](const Dec &x){ return x.stream == 'p'; });
  drop([](const Dec &x){ return x.stream == 'f'; });
  for (char st : {'f', 'p', 's', 'c', 's', 'p'}) for (size_t m = 0; m < d.size(); m++) {
    std::vector<size_t> idx; for (size_t i = 0; i < d[m].size(); i++) if (d[m][i].stream == st) idx.push_back(i);
    size_t chunk = (idx.size() + 1) / 2;
    while (chunk >= 1 && !idx.empty() && now() - t0 < budget) {
      bool prog = false;
      for (size_t o = 0; o < idx.size() && now() - t0 < budget; ) {
        size_t e = std::min(idx.size(), o + chunk); auto c = d; std::vector<Dec> nm; std::set<size_t> rm(idx.begin() + o, idx.begin() + e); for (size_t i = 0; i < d[m].size(); i++) if (!rm.count(i)) nm.push_back(d[m][i]); c[m] = nm;
        if (test(c)) { d = c; idx.clear(); for (size_t i = 0; i < d[m].size(); i++) if (d[m][i].stream == st) idx.push_back(i); prog = true; } else o = e;
      }
      if (!prog) { if (chunk == 1) break; chunk = (chunk + 1) / 2; if (chunk < 1) chunk = 1; } else chunk = std::min(chunk, (idx.size() + 1) / 2);
    }
    // smaller configuration values
    if (st == 'c') for (size_t i = 0; i < d[m].size() && now() - t0 < budget; i++) if (d[m][i].stream == 'c') for (u32 nv : {1u, d[m][i].val / 2}) if (nv && nv < d[m][i].val) { auto c = d; c[m][i].val = nv; if (test(c)) { d = c; break; } }
  }
  fprintf(stderr, "simx: minimised in %d runs, %.1f s\n", tries, now() - t0);
}

int main(int argc, char **argv){
  std::string node, prop, replay, out, rdir = ".", knownf, only; u64 seed = 1, maxruns = 0; double tlim = 30; int W = 4; bool det = false, nomin = false; double minb = 40; bool verbose_one = false; u64 oneseed = 0; bool one = false, collect = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]{ return std::string(argv[++i]); };
    if (a == "--node") node = nx(); else if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--time") tlim = atof(nx().c_str()); else if (a == "--runs") maxruns = strtoull(nx().c_str(), 0, 10); else if (a == "--workers") W = atoi(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--replaydir") rdir = nx(); else if (a == "--known") knownf = nx(); else if (a == "--sub") only = nx(); else if (a == "--det") det = true; else if (a == "--nomin") nomin = true; else if (a == "--collect") collect = true; else if (a == "--minbudget") minb = atof(nx().c_str()); else if (a == "--one") { one = true; oneseed = strtoull(nx().c_str(), 0, 10); } else { fprintf(stderr, "simx: bad option %s\n", a.c_str()); return 3; } }
  (void)verbose_one;
  if (!getenv("SIMX_NOASLR")) { setenv("SIMX_NOASLR", "1", 1); int pe = personality(0xffffffff); if (pe >= 0 && !(pe & ADDR_NO_RANDOMIZE) && personality(pe | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  mem_setup();
  for (int r = 0; r < MAXRANKS; r++) {
    std::string p = node + "/node" + std::to_string(r) + ".so"; void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "simx: %s\n", dlerror()); return 3; }
    if (r == 0) load_syms(p.c_str()); dl_iterate_phdr(addbase, &p); node_base[r] = bases.back().first; node_end[r] = bases.back().second;
    typedef SimWorkload **(*GetW)(); GetW gw = (GetW)dlsym(h, "sim_workloads_get"); SimWorkload **w = gw ? gw() : nullptr; if (!w) { fprintf(stderr, "simx: no workloads\n"); return 3; }
    std::vector<SimWorkload*> v; for (; *w; w++) v.push_back(*w); WLR.push_back(v); if (r == 0) WL = v;
  }
  if (!knownf.empty()) load_known(knownf.c_str());
  ST = (Stats*)mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (auto &h : hts) h = (HT*)mmap(nullptr, sizeof(HT) + HN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  RA = newresult(); RB = newresult();
  if (!replay.empty()) {
    FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 3; }
    char b[4096]; Group g; g.replay = true; std::string p, kind, where; u64 hash = 0; int member = 0; g.seed = 0;
    while (fgets(b, sizeof b, f)) { char s1[1000]; unsigned long long x; 
      if (sscanf(b, "prop %999s", s1) == 1) p = s1; else if (sscanf(b, "sub %999s", s1) == 1) g.sub = s1; else if (sscanf(b, "seed %llu", &x) == 1) g.seed = x; else if (sscanf(b, "member %d", &member) == 1) {} else if (sscanf(b, "kind %999s", s1) == 1) kind = s1; else if (sscanf(b, "where %999s", s1) == 1) where = s1; else if (sscanf(b, "hash %llx", &x) == 1) hash = x; else if (!strncmp(b, "end", 3)) break; else { size_t m; char c; unsigned v; unsigned long long id; if (sscanf(b, "%zu %c %llu %u", &m, &c, &id, &v) == 4) { if (g.decs.size() <= m) g.decs.resize(m + 1); Dec d; memset(&d, 0, sizeof d); d.idx = id; d.val = v; d.stream = c; g.decs[m].push_back(d); } } }
    fclose(f);
    g.widx = find_sub(p, g.sub); if (g.widx < 0) { fprintf(stderr, "simx: unknown workload %s/%s\n", p.c_str(), g.sub.c_str()); return 3; }
    g.decs.resize(std::max(1, WL[g.widx]->members)); 
    Viol v; if (run_group(g, v, nullptr, false)) { printf("kind %s\nwhere %s\nhash %llx\n%s\n", v.kind.c_str(), v.where.empty() ? "-" : v.where.c_str(), (unsigned long long)v.hash, v.msg.c_str()); bool same = v.kind == kind && (v.where.empty() ? "-" : v.where) == where && v.hash == hash; printf("reproduced %s\n", same ? "exactly" : "differently"); return 1; }
    printf("no violation\n"); return 0;
  }
  std::vector<int> mine; int totw = 0; for (size_t i = 0; i < WL.size(); i++) if (prop == WL[i]->name && (only.empty() || only == WL[i]->sub)) { mine.push_back((int)i); totw += WL[i]->weight; }
  if (mine.empty()) { fprintf(stderr, "simx: no workload for %s\n", prop.c_str()); return 3; }
  auto pick = [&](u64 sd){ int x = (int)(mix64(sd + 4711) % totw); for (int w : mine) { if (x < WL[w]->weight) return w; x -= WL[w]->weight; } return mine[0]; };
  if (one) { Group g; g.seed = oneseed; g.replay = false; g.widx = pick(g.seed); g.sub = WL[g.widx]->sub; Viol v; std::vector<std::vector<Dec>> d; double t = now(); bool bad = run_group(g, v, &d, false);
    printf("%s/%s seed %llu: %s %.3fs acc %llu sched %llu msgs %llu coll %llu cfg: %s\n", prop.c_str(), g.sub.c_str(), (unsigned long long)oneseed, bad ? "VIOLATION" : "ok", now() - t, (unsigned long long)(RB->nacc + RA->nacc), (unsigned long long)RB->nsched, (unsigned long long)RB->nmsg, (unsigned long long)RB->ncoll, RB->cfgdesc); if (bad) printf("%s @ %s: %s\n", v.kind.c_str(), v.where.c_str(), v.msg.c_str()); return bad; }
  double t0 = now(); std::vector<pid_t> kids;
  for (int w = 0; w < W; w++) { fflush(nullptr); pid_t p = fork(); if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      RA = newresult(); RB = newresult();
      for (u64 i = w; !ST->stop; i += W) {
        if ((maxruns && i >= maxruns) || now() - t0 > tlim) break;
        Group g; g.seed = mix64(seed * 1000003 + i); g.replay = false; g.widx = pick(g.seed); g.sub = WL[g.widx]->sub; Viol v;
        bool bad = run_group(g, v, nullptr, true);
        __sync_fetch_and_add(&ST->groups, 1); 
        { lock(); int j; for (j = 0; j < (int)ST->nsub; j++) if (!strcmp(ST->sub[j].name, g.sub.c_str())) break; if (j == (int)ST->nsub && j < 64) { ST->nsub++; snprintf(ST->sub[j].name, 48, "%s", g.sub.c_str()); ST->sub[j].n = 0; } if (j < 64) ST->sub[j].n++; if (ST->nsamples < 6 && RB->cfgdesc[0]) { snprintf(ST->samples[ST->nsamples++], 1200, "%s seed=%llu %s", g.sub.c_str(), (unsigned long long)g.seed, RB->cfgdesc); } unlock(); }
        if (!bad && (det || i % 64 == 7)) { u64 h = group_hash(); Viol v2; std::vector<std::vector<Dec>> dd; run_group(g, v2, &dd, false); bool ovf = RA->decoverflow || RB->decoverflow; __sync_fetch_and_add(&ST->detpairs, 1);
          if (det && group_hash() != h) fprintf(stderr, "rerun differs\n"); if (group_hash() == h && !ovf) { Group gr = g; gr.replay = true; gr.decs = dd; Viol v3; run_group(gr, v3, nullptr, false); } if (group_hash() != h) { __sync_fetch_and_add(&ST->detbad, 1); if (det) fprintf(stderr, "nondeterministic: seed %llu sub %s\n", (unsigned long long)g.seed, g.sub.c_str()); } }
        if (bad) {
          int k = known(prop, g.sub, v);
          if (collect) { fprintf(stderr, "collect: %s %llu %s @ %s: %.300s\n", g.sub.c_str(), (unsigned long long)g.seed, v.kind.c_str(), v.where.c_str(), v.msg.c_str()); continue; }
          if (k >= 0) { lock(); if (k < 32) { ST->knownn[k]++; } unlock(); continue; }
          lock(); ST->viol++; if (!ST->have) { ST->have = 1; ST->vseed = g.seed; ST->vwidx = g.widx; } ST->stop = 1; unlock(); break; }
      }
      _exit(0); }
    kids.push_back(p); }
  for (auto p : kids) { int st; waitpid(p, &st, 0); }
  double dt = now() - t0; int rc = 0; std::string rpath; Viol v;
  if (ST->have) {
    Group g; g.seed = ST->vseed; g.widx = ST->vwidx; g.sub = WL[g.widx]->sub; g.replay = false; std::vector<std::vector<Dec>> d; Viol v1, v2;
    bool a = run_group(g, v1, &d, false); bool overflow = RA->decoverflow || RB->decoverflow; bool b = run_group(g, v2, nullptr, false);
    if (!a || !b || v1.kind != v2.kind || v1.hash != v2.hash) { fprintf(stderr, "simx: violation of seed %llu (%s) does not repeat: %s/%s %llx/%llx\n", (unsigned long long)g.seed, g.sub.c_str(), a ? v1.kind.c_str() : "none", b ? v2.kind.c_str() : "none", (unsigned long long)v1.hash, (unsigned long long)v2.hash); rc = 4; }
    else {
      v = v1; Group h = g; h.replay = true; h.decs = d; Viol w;
      if (overflow) fprintf(stderr, "simx: decision log overflow\n");
      if (!run_group(h, w, nullptr, false) || w.kind != v1.kind || w.hash != v1.hash) { fprintf(stderr, "simx: recorded decisions do not reproduce: %s %s @%s / %s %llx %llx\n%s\n", g.sub.c_str(), v1.kind.c_str(), v1.where.c_str(), w.kind.c_str(), (unsigned long long)v1.hash, (unsigned long long)w.hash, v1.msg.c_str()); rc = 4; }
      else {
        size_t n0 = 0; for (auto &x : d) n0 += x.size();
        if (!nomin) minimise(prop, g, v, d, minb);
        size_t n1 = 0; for (auto &x : d) n1 += x.size();
        rpath = rdir + "/" + prop + "-" + g.sub + "-" + std::to_string(g.seed) + ".replay"; write_replay(rpath.c_str(), prop, g, v, d);
        fprintf(stderr, "simx: %s/%s seed %llu: %s @ %s: %s\n  decisions: %zu recorded, %zu after minimisation\n", prop.c_str(), g.sub.c_str(), (unsigned long long)g.seed, v.kind.c_str(), v.where.c_str(), v.msg.c_str(), n0, n1); rc = 1; } }
  }
  if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); 
    fprintf(f, "{\"groups\":%llu,\"runs\":%llu,\"wall\":%.3f,\"rc\":%d,\"replay\":%s,\"kind\":%s,\"where\":%s,\"msg\":%s,\n", (unsigned long long)ST->groups, (unsigned long long)ST->runs, dt, rc, jstr(rpath).c_str(), jstr(v.kind).c_str(), jstr(v.where).c_str(), jstr(v.msg).c_str());
#define S(x) fprintf(f, "\"" #x "\":%llu,", (unsigned long long)ST->x)
    S(nacc); S(nsched); S(nswitch); S(npreempt); S(ndeliver); S(nmsg); S(ncoll); S(nspurious); S(nalloc); S(nallocfail); S(nthread); S(nthreadfail); S(niofault); S(nlate); S(nrndv); S(nany); S(simus); S(detpairs); S(detbad);
    fprintf(f, "\n\"distinct_sched\":%llu,\"distinct_exec\":%llu,\"distinct_state\":%llu,\n\"probes\":{", (unsigned long long)hts[0]->n, (unsigned long long)hts[1]->n, (unsigned long long)hts[2]->n);
    for (int i = 0; i < ST->nprobe; i++) fprintf(f, "%s%s:%ld", i ? "," : "", jstr(ST->probe[i].name).c_str(), ST->probe[i].n);
    fprintf(f, "},\n\"subs\":{"); for (int i = 0; i < (int)ST->nsub; i++) fprintf(f, "%s%s:%ld", i ? "," : "", jstr(ST->sub[i].name).c_str(), ST->sub[i].n);
    fprintf(f, "},\n\"samples\":["); for (int i = 0; i < ST->nsamples; i++) fprintf(f, "%s%s", i ? "," : "", jstr(ST->samples[i]).c_str());
    fprintf(f, "],\n\"known\":["); bool first = true; for (size_t i = 0; i < KN.size() && i < 32; i++) if (KN[i].prop == prop) { fprintf(f, "%s{\"text\":%s,\"hits\":%llu}", first ? "" : ",", jstr(KN[i].text).c_str(), (unsigned long long)ST->knownn[i]); first = false; }
    fprintf(f, "]}\n"); fclose(f); }
  return rc;
}
