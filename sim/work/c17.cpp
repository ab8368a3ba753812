// C17: compressed streams. Reference: the bytes written, and the compression libraries called directly on the finished file.
#include "w.h"
#include "c17g.h"
#include "pack.h"
#include <errno.h>
namespace {
enum { F_NONE, F_TRUNC, F_FLIP, F_TAIL, F_EARLY, F_OPEN, F_ALLOC, F_THREAD, F_RDERR, F_WRERR, F_NB };
struct S { int nf; int type[3]; int len[3]; int kind[3]; uint64_t seed; int fault; long at; int parts; int chunk, flush; bool same, inter; int tune; };
const char *ext[] = {".gz", ".bz2", ".xz", ".lzma", ".grf"}; const char *fn[] = {"none", "truncate", "flip", "tail", "early-close", "open", "alloc", "thread", "read-error", "write-error"};
std::string data(uint64_t seed, int len, int kind) { LR r(seed); std::string s((size_t)len, 'a'); for (int i = 0; i < len; i++) s[i] = kind == 0 ? (char)r.next() : kind == 1 ? "0123456789\t\n"[r.below(12)] : kind == 2 ? 'x' : (char)("ab"[r.below(2)]); return s; }
}
// A text whose bzip2 form ends exactly on a multiple of the 5000 bytes which libbz2 reads at a time: tail bytes are added to part "t" until it does.
static std::string tuned(std::string t, size_t base, uint64_t seed, bool &hit) { LR r(seed ^ 0x7A11); hit = false; std::string z = pack(1, t); size_t want = (base + z.size() + 4999) / 5000 * 5000 - base;
  for (int k = 0; k < 60; k++) { if (z.size() == want) { hit = true; return t; } if (z.size() > want) want += 5000; long gap = (long)(want - z.size()); long add = gap > 400 ? gap * 98 / 100 - 200 : gap > 8 ? gap / 2 + 1 : 1; if (k > 40) { t.pop_back(); add = 1; } while (add-- > 0) t += (char)r.next(); z = pack(1, t); if (z.size() > want && k <= 40) { while (z.size() > want && t.size() > 8) { t.resize(t.size() - 1 - (z.size() - want) / 2); z = pack(1, t); } } }
  return t; }
static void setup() {
  S *s = newshared<S>(); s->nf = 1 + (cfg(4) == 3 ? 1 + cfg(2) : 0); s->fault = cfg(3) ? 0 : 1 + cfg(F_NB - 1); bool single = s->fault >= F_OPEN; if (single) s->nf = 1;
  static const int pc[] = {0, 0, 1, 7, 100, 4096, 65536}; sim_io.pipecap = pc[cfg(7)]; bool slow = sim_io.pipecap && sim_io.pipecap < 50;
  for (int i = 0; i < s->nf; i++) { s->type[i] = cfg(12) < 4 ? 0 : 0; int t = cfg(7); s->type[i] = t == 0 ? 0 : t < 3 ? 1 : t < 4 ? 2 : t < 5 ? 3 : t == 5 ? 0 : 4; s->kind[i] = cfg(4); int k = cfg(7); s->len[i] = k == 0 ? cfg(3) : k < 4 ? cfg(2000) : slow ? cfg(3000) : k < 6 ? cfg(140000) : 131072 * (1 + cfg(2)) + (int)cfg(3) - 1; }
  s->seed = cfg(1 << 30); s->at = cfg(1 << 30); s->parts = cfg(3) ? 0 : 1 + cfg(3); s->chunk = cfg(4) == 0 ? 0 : 1 + cfg(5000); s->flush = cfg(4) == 3; s->inter = coin(); s->same = s->nf > 1 && cfg(4) == 3; s->tune = cfg(3) == 2; if (s->tune && !s->parts) s->parts = cfg(3);
  static const int bm[] = {0, 0, -1, 64, 5000}; sim_io.bufmode = slow ? 0 : bm[cfg(5)]; if (sim_io.bufmode < 0 && s->chunk > 0 && s->chunk < 20) s->chunk += 20; sim_io.rdchunk = cfg(3) == 2 ? 50 + cfg(3000) : 0; sim_io.wrchunk = cfg(3) == 2 ? 50 + cfg(3000) : 0;
  std::string d; for (int i = 0; i < s->nf; i++) d += " " + std::to_string(s->len[i]) + std::string(ext[s->type[i]]); sim_describe("files%s fault=%s at=%ld parts=%d pipe=%d", d.c_str(), fn[s->fault], s->at, s->parts, sim_io.pipecap); sim_knobs.preempt = 1;
}
static std::string readall(FILE *f, LR &r, long max) { std::string o; char b[9000]; while (max < 0 || (long)o.size() < max) { size_t w = 1 + r.below(sizeof b - 1); if (max >= 0) w = std::min<size_t>(w, max - o.size()); size_t k = fread(b, 1, w, f); o.append(b, k); if (k == 0) break; } return o; }
static void rmain(int) {
  S &s = shared<S>(); LR r(s.seed); std::vector<std::string> nm, d; for (int i = 0; i < s.nf; i++) { nm.push_back("f" + std::to_string(s.same ? 0 : i) + ext[s.type[s.same ? 0 : i]]); d.push_back(data(s.seed + i, s.len[i], s.kind[i])); }
  int fd0 = sim_open_fds(); bool pre = s.parts > 0 && !s.same; long live0 = sim_live_blocks(sim_rank());
  if (pre) for (int i = 0; i < s.nf; i++) { std::string z; if (s.type[i] == 4) z = d[i]; else { size_t p = 0; std::string nd; for (int k = 0; k < s.parts; k++) { size_t e = k == s.parts - 1 ? d[i].size() : p + r.below((int)(d[i].size() - p) + 1); std::string t = d[i].substr(p, e - p); bool hit; if (s.tune && s.type[i] == 1 && d[i].size() < 20000) { t = tuned(t, z.size(), s.seed + i + k, hit); if (hit) sim_probe("bz2-exact"); nd += t; } else nd += t; z += pack(s.type[i] == 3 ? 2 : s.type[i], t); p = e; } d[i] = nd; } sim_file_put(nm[i].c_str(), z.data(), z.size()); sim_probe("foreign-file"); }
  else {
    void *b = fb_new(s.nf); for (int i = 0; i < s.nf; i++) fb_set(b, i, nm[i].c_str(), 1);
    int wf = s.fault; if (wf == F_OPEN) sim_io.openfail = 1 + s.at % 3; if (wf == F_ALLOC) sim_fail_from(sim_alloc_index() + s.at % 4, 1 + s.at % 2); if (wf == F_THREAD) sim_knobs.fail_thread = 0; if (wf == F_WRERR) { sim_io.wrerr_at = s.at % (s.len[0] + 20); if (s.at % 5 == 0) { sim_io.wrerr_at = -1; sim_io.closeerr = 1; } }
    int o = fb_open(b, s.nf); bool met = sim_read_faults() + sim_alloc_failed() + sim_threads_refused() > 0; bool wbroken = false;
    if (o) { if (!met) sim_violation("call-failed", "fileBlockOpen for writing returned %d without any fault", o); sim_probe("open-failure-reported"); }
    else { std::vector<size_t> p(s.nf, 0); bool more = true; while (more) { more = false; for (int i = 0; i < s.nf; i++) { size_t k = std::min(d[i].size() - p[i], s.chunk ? (size_t)1 + r.below(s.chunk) : d[i].size()); if (k) { FILE *f = fb_stream(b, i); size_t w = fwrite(d[i].data() + p[i], 1, k, f); if (w != k) { wbroken = true; p[i] = d[i].size(); } else p[i] += k; if (s.flush && fflush(f)) wbroken = true; more = more || p[i] < d[i].size(); } } } }
    fb_close(b, s.nf); fb_free(b); met = sim_read_faults() + sim_alloc_failed() + sim_threads_refused() > 0; bool wm = sim_write_faults() > 0; sim_io.openfail = 0; sim_fail_from(-1, 0); sim_knobs.fail_thread = -1; sim_io.wrerr_at = -1; sim_io.closeerr = 0;
    if (sim_open_fds() != fd0) sim_violation("descriptor-left", "%d descriptors left open after closing (fault %s)", sim_open_fds() - fd0, fn[s.fault]);
    if (sim_other_fibers(sim_rank())) sim_violation("worker-left", "the compressing thread is still there after closing");
    if (sim_live_blocks(sim_rank()) != live0) sim_violation("memory-left", "%ld blocks left after closing (fault %s)", sim_live_blocks(sim_rank()) - live0, fn[s.fault]);
    if (wm && s.type[0] != 4 && sim_err_count(sim_rank()) == 0) sim_violation("error-hidden", "the compressed file could not be written and no error was reported");
    if (wm) sim_probe("write-error-met"); if (met) sim_probe("compress-fault-met"); if (o || met || wm) return;
    if (wbroken) sim_violation("call-failed", "a write to the compressing stream failed without any fault"); if (sim_err_count(sim_rank())) sim_violation("call-failed", "error reported without any fault: %s", sim_err_last(sim_rank()));
    if (s.same) { std::vector<std::string> all; if (s.nf > 1) return; }
    for (int i = 0; i < s.nf; i++) { std::string z((const char*)sim_file_data(nm[i].c_str()), sim_file_size(nm[i].c_str())), u; bool ok = s.type[i] == 4 ? (u = z, true) : unpack(s.type[i] == 3 ? 2 : s.type[i], z, u, d[i].size()); if (!ok || u != d[i]) sim_violation("data-differs", "file %s of %zu bytes does not hold the %zu bytes written (%s, %zu bytes)", nm[i].c_str(), z.size(), d[i].size(), ok ? "decodes" : "damaged", u.size()); }
  }
  bool early = s.fault == F_EARLY; int fi = 0; bool damaged = s.fault >= F_TRUNC && s.fault <= F_TAIL;
  if (damaged) { std::string z((const char*)sim_file_data(nm[0].c_str()), sim_file_size(nm[0].c_str())); if (s.fault == F_TRUNC) z.resize(z.empty() ? 0 : s.at % z.size()); else if (s.fault == F_FLIP) { if (!z.empty()) for (int k = 0; k <= s.at % 3; k++) z[sim_hash64(s.at, k) % z.size()] ^= (char)(1 + sim_hash64(s.at, k + 9) % 255); } else z += data(s.seed + 77, 1 + s.at % 9000, s.at % 4); sim_file_put(nm[0].c_str(), z.data(), z.size()); }
  void *b = fb_new(s.nf); for (int i = 0; i < s.nf; i++) fb_set(b, i, nm[i].c_str(), 0);
  int err0 = sim_err_count(sim_rank()); int rf0 = sim_read_faults(); if (s.fault == F_OPEN) sim_io.openfail = 1 + s.at % 3; if (s.fault == F_ALLOC) sim_fail_from(sim_alloc_index() + s.at % 4, 1 + s.at % 2); if (s.fault == F_THREAD) sim_knobs.fail_thread = 0; if (s.fault == F_RDERR) sim_io.rderr_at = s.at % (sim_file_size(nm[0].c_str()) + 1);
  int o = fb_open(b, s.nf); bool met = sim_read_faults() > rf0 || sim_alloc_failed() || sim_threads_refused(); std::vector<std::string> got(s.nf); bool ferr = false;
  if (o) { if (!met) sim_violation("call-failed", "fileBlockOpen for reading returned %d without any fault", o); sim_probe("open-failure-reported"); }
  else { if (s.inter && s.nf > 1 && !early) { bool more = true; while (more) { more = false; for (int i = 0; i < s.nf; i++) { std::string t = readall(fb_stream(b, i), r, 1 + r.below(5000)); got[i] += t; more = more || !t.empty(); } } } else for (int i = 0; i < s.nf; i++) got[i] = readall(fb_stream(b, i), r, early && i == fi ? (long)(s.at % (d[i].size() + 1)) : -1); for (int i = 0; i < s.nf; i++) ferr = ferr || ferror(fb_stream(b, i)); }
  fb_close(b, s.nf); fb_free(b); met = sim_read_faults() > rf0 || sim_alloc_failed() || sim_threads_refused(); sim_io.openfail = 0; sim_fail_from(-1, 0); sim_knobs.fail_thread = -1; sim_io.rderr_at = -1;
  if (sim_open_fds() != fd0) sim_violation("descriptor-left", "%d descriptors left open after closing for reading (fault %s)", sim_open_fds() - fd0, fn[s.fault]);
  if (sim_other_fibers(sim_rank())) sim_violation("worker-left", "the decompressing thread is still there after closing");
  if (sim_live_blocks(sim_rank()) != live0) sim_violation("memory-left", "%ld blocks left after closing for reading (fault %s)", sim_live_blocks(sim_rank()) - live0, fn[s.fault]);
  if (met) sim_probe("decompress-fault-met"); if (o) return;
  if (!met && !damaged && !early && sim_err_count(sim_rank()) != err0) sim_violation("call-failed", "error reported when reading whole files without any fault: %s", sim_err_last(sim_rank()));
  for (int i = 0; i < s.nf; i++) { bool whole = !met && !(damaged && i == 0 && s.fault != F_TAIL) && !(early && i == fi); if (s.fault == F_TAIL && i == 0 && s.type[0] == 4) whole = false;
    if (whole) { if (s.fault == F_TAIL && i == 0 && s.type[0] >= 2) { /* data after the end: an error, the data may be cut */ if (got[i] != d[i].substr(0, got[i].size())) sim_violation("data-differs", "file %s followed by other data: what was read is not what was written", nm[i].c_str()); } else if (s.fault == F_TAIL && i == 0) { if (got[i].substr(0, d[i].size()) != d[i]) sim_violation("data-differs", "file %s followed by other data: only %zu of %zu bytes read back", nm[i].c_str(), got[i].size(), d[i].size()); } else if (got[i] != d[i]) sim_violation("data-differs", "read back %zu bytes from %s where %zu were written%s", got[i].size(), nm[i].c_str(), d[i].size(), got[i].size() == d[i].size() ? " (different)" : ""); else sim_probe("round-trip"); }
    else if (s.fault != F_FLIP || i != 0) { if (s.fault == F_TAIL) continue; if (s.fault == F_TRUNC && i == 0 && s.type[0] == 0 && sim_file_size(nm[0].c_str()) < 2) continue; /* zlib takes files without its signature as plain data */ if (got[i].size() > d[i].size() || got[i] != d[i].substr(0, got[i].size())) sim_violation("data-differs", "what was read from cut file %s is not the beginning of what was written", nm[i].c_str()); if (early && i == fi && got[i].size() != std::min<size_t>(s.at % (d[i].size() + 1), d[i].size())) sim_violation("data-differs", "stream %s ended early", nm[i].c_str()); if (met && s.type[i] != 4 && got[i].size() < d[i].size() && sim_err_count(sim_rank()) == 0 && !ferr) sim_violation("error-hidden", "only %zu of %zu bytes of %s could be read and no error was reported (fault %s)", got[i].size(), d[i].size(), nm[i].c_str(), fn[s.fault]); } }
}
WORKLOAD(C17, "compress", 1, 1, setup, rmain, nullptr)
