// Simulated files and pipes. Streams are glibc cookie streams on top of simulated descriptors.
#include "core.h"
#include <errno.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/types.h>

struct File { std::string data; bool exists; };
struct Pipe { std::deque<u8> q; int readers, writers; char tag; };
struct Fd { int kind; /*0 free,1 file,2 pipe read,3 pipe write*/ File *f; Pipe *p; size_t *pos; bool rd, wr, app; std::string name; bool werr; };
static const int FDBASE = 100000;
static std::vector<Fd> fds; static std::map<std::string, File> fs; static std::map<FILE*, int> fmap; static int iofaults, wfaults, rfaults, nopen; static bool transient_done;
extern "C" { int sim_wrote_after_fault; }
static long rdcount, wrcount;             // bytes through all faulty streams
void io_reset(){ fds.clear(); fs.clear(); fmap.clear(); iofaults = wfaults = rfaults = nopen = 0; rdcount = wrcount = 0; transient_done = false; }
static int newfd(){ for (size_t i = 0; i < fds.size(); i++) if (!fds[i].kind) return (int)i; fds.push_back(Fd{}); return (int)fds.size() - 1; }
static Fd *get(int fd){ long i = fd - FDBASE; return i >= 0 && i < (long)fds.size() && fds[i].kind ? &fds[i] : nullptr; }
static void fault(const char *what, bool w){ iofaults++; if (w) wfaults++; else rfaults++; R->niofault++; hmix(3131); probe(what); }
static ssize_t fd_read(int fd, void *buf, size_t n){
  Fd *f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (f->kind == 2) {
    Pipe *p = f->p; const char *w = "pipe read"; sched_point(w);
    while (p->q.empty() && p->writers) block_on(p, w);
    f = get(fd);
    size_t k = std::min(n, p->q.size()); if (k > 1 && sim_io.rdchunk > 0 && sdec(3, 0.5)) { size_t m = std::min<size_t>(k, sim_io.rdchunk); k = m - sdec((u32)m, 0.9); }
    for (size_t i = 0; i < k; i++) { ((u8*)buf)[i] = p->q.front(); p->q.pop_front(); }
    wake_all(p); hmix(k + 555); return (ssize_t)k;
  }
  if (f->kind != 1 || !f->rd) { errno = EBADF; return -1; }
  size_t sz = f->f->data.size(); size_t lim = sz;
  bool inj = cur && !cur->noinject;
  if (inj && sim_io.rdeof_at >= 0 && *f->pos >= (size_t)sim_io.rdeof_at) { if (*f->pos < sz) fault("io.read_truncated", false); return 0; }
  if (inj && sim_io.rderr_at >= 0 && *f->pos >= (size_t)sim_io.rderr_at) { fault("io.read_error", false); errno = EIO; return -1; }
  if (inj && sim_io.rdeof_at >= 0) lim = std::min(lim, (size_t)sim_io.rdeof_at);
  if (inj && sim_io.rderr_at >= 0) lim = std::min(lim, (size_t)sim_io.rderr_at);
  if (*f->pos >= lim) return 0;
  size_t k = std::min(n, lim - *f->pos);
  if (inj && sim_io.rdchunk > 0 && k > 1) { size_t m = std::min<size_t>(k, sim_io.rdchunk); k = m - sdec((u32)m, 0.9); probe("io.short_read"); }
  memcpy(buf, f->f->data.data() + *f->pos, k); *f->pos += k; sched_point("file read"); return (ssize_t)k;
}
static ssize_t fd_write(int fd, const void *buf, size_t n){
  Fd *f = get(fd); if (!f) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  if (f->kind == 3) {
    Pipe *p = f->p; sched_point("pipe write");
    size_t cap = sim_io.pipecap > 0 ? sim_io.pipecap : 65536; size_t done = 0;
    while (done < n) {
      while (p->readers && p->q.size() >= cap) block_on(p, "pipe write");
      if (!p->readers) { probe("io.epipe"); errno = EPIPE; return done ? (ssize_t)done : -1; }
      size_t k = std::min(n - done, cap - p->q.size());
      for (size_t i = 0; i < k; i++) p->q.push_back(((const u8*)buf)[done + i]);
      done += k; wake_all(p);
      if (done < n) sched_point("pipe write");
    }
    hmix(done + 666); return (ssize_t)done;
  }
  if (f->kind != 1 || !f->wr) { errno = EBADF; return -1; }
  bool inj = cur && !cur->noinject; size_t k = n;
  if (inj && sim_io.wrerr_at >= 0 && !(sim_io.wrtransient && transient_done)) {
    if (wrcount >= sim_io.wrerr_at) { transient_done = true; f->werr = true; fault(sim_io.wrtransient ? "io.write_error_once" : "io.write_error", true); errno = sim_io.wrerrno ? sim_io.wrerrno : ENOSPC; return -1; }
    k = std::min<size_t>(k, sim_io.wrerr_at - wrcount);
  }
  if (inj && sim_io.wrchunk > 0 && k > 1) { size_t m = std::min<size_t>(k, sim_io.wrchunk); k = m - sdec((u32)m, 0.9); probe("io.short_write"); }
  if (f->app) *f->pos = f->f->data.size();
  if (f->f->data.size() < *f->pos + k) f->f->data.resize(*f->pos + k);
  memcpy(&f->f->data[*f->pos], buf, k); *f->pos += k; if (inj) wrcount += k; sched_point("file write"); return (ssize_t)k;
}
static int fd_close(int fd){
  Fd *f = get(fd); if (!f) { errno = EBADF; return -1; }
  int r = 0;
  if (f->kind == 2) { f->p->readers--; wake_all(f->p); } else if (f->kind == 3) { f->p->writers--; wake_all(f->p); }
  else if (f->wr && sim_io.closeerr && cur && !cur->noinject) { fault("io.close_error", true); errno = EIO; r = -1; }
  f->kind = 0; sched_point("close"); return r;
}
static ssize_t ck_read(void *c, char *b, size_t n){ return fd_read((int)(long)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n){ ssize_t r = 0; size_t d = 0; while (d < n) { r = fd_write((int)(long)c, b + d, n - d); if (r <= 0) break; d += r; } return (ssize_t)d; }  // like glibc on a descriptor: continues after a short write
static int ck_seek(void *c, off64_t *o, int w){ Fd *f = get((int)(long)c); if (!f || f->kind != 1) { errno = ESPIPE; return -1; } off64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? (off64_t)*f->pos : (off64_t)f->f->data.size(); b += *o; if (b < 0) { errno = EINVAL; return -1; } *f->pos = b; *o = b; return 0; }
static int ck_close(void *c){ return fd_close((int)(long)c); }
static FILE *mkstream(int i, const char *mode){
  cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
  FILE *s = fopencookie((void*)(long)(i + FDBASE), mode, io); if (!s) abort();
  fmap[s] = i + FDBASE;
  if (sim_io.bufmode > 0) setvbuf(s, nullptr, _IOFBF, sim_io.bufmode); else if (sim_io.bufmode < 0) setvbuf(s, nullptr, _IONBF, 0);
  return s;
}
extern "C" {
void sim_file_put(const char *n, const void *d, size_t k){ File &f = fs[n]; f.exists = true; f.data.assign((const char*)d, k); }
size_t sim_file_size(const char *n){ auto it = fs.find(n); return it == fs.end() || !it->second.exists ? (size_t)-1 : it->second.data.size(); }
const unsigned char *sim_file_data(const char *n){ auto it = fs.find(n); return it == fs.end() ? nullptr : (const unsigned char*)it->second.data.data(); }
void sim_io_rearm(void){ nopen = 0; rdcount = wrcount = 0; transient_done = false; }
int sim_file_faults(void){ return iofaults; } int sim_write_faults(void){ return wfaults; } int sim_read_faults(void){ return rfaults; }
FILE *sim_fopen(const char *n, const char *mode){
  nopen++;
  if (sim_io.openfail && nopen == sim_io.openfail && cur && !cur->noinject) { fault("io.open_error", false); errno = EMFILE; return nullptr; }
  bool r = strchr(mode, 'r'), w = strchr(mode, 'w'), a = strchr(mode, 'a'), plus = strchr(mode, '+');
  auto it = fs.find(n); if (r && (it == fs.end() || !it->second.exists)) { errno = ENOENT; return nullptr; }
  File &f = fs[n]; f.exists = true; if (w) f.data.clear();
  int i = newfd(); fds[i] = Fd{}; fds[i].pos = new size_t(0); fds[i].kind = 1; fds[i].f = &f; fds[i].rd = r || plus; fds[i].wr = w || a || plus; fds[i].app = a; fds[i].name = n;
  return mkstream(i, mode);
}
FILE *__wrap_fopen(const char *n, const char *mode){ return sim_fopen(n, mode); }
FILE *__wrap_fopen64(const char *n, const char *mode){ return sim_fopen(n, mode); }
FILE *__wrap_fdopen(int fd, const char *mode){ Fd *f = get(fd); if (!f) { errno = EBADF; return nullptr; } if (sim_io.openfail && ++nopen == sim_io.openfail && cur && !cur->noinject) { fault("io.fdopen_error", false); errno = ENOMEM; return nullptr; } return mkstream(fd - FDBASE, mode); }
int __wrap_fileno(FILE *s){ auto it = fmap.find(s); if (it != fmap.end()) return it->second; return fileno(s); }
int __wrap_fclose(FILE *s){ fmap.erase(s); return fclose(s); }
int __wrap_pipe(int *pf){
  if (sim_io.openfail && ++nopen == sim_io.openfail && cur && !cur->noinject) { fault("io.pipe_error", false); errno = EMFILE; return -1; }
  Pipe *p = new Pipe(); p->readers = p->writers = 1;
  int a = newfd(); fds[a] = Fd{}; fds[a].kind = 2; fds[a].p = p; fds[a].rd = true; int b = newfd(); fds[b] = Fd{}; fds[b].kind = 3; fds[b].p = p; fds[b].wr = true; pf[0] = a + FDBASE; pf[1] = b + FDBASE; return 0; }
// Descriptor calls made by the library or by the compression libraries.
ssize_t read(int fd, void *b, size_t n){ if (fd >= FDBASE) return fd_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n){ if (fd >= FDBASE) return fd_write(fd, b, n); return syscall(SYS_write, fd, b, n); }
int close(int fd){ if (fd >= FDBASE) return fd_close(fd); return (int)syscall(SYS_close, fd); }
off_t lseek(int fd, off_t o, int w) noexcept { if (fd >= FDBASE) { off64_t x = o; return ck_seek((void*)(long)fd, &x, w) ? -1 : x; } return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (fd >= FDBASE) { off64_t x = o; return ck_seek((void*)(long)fd, &x, w) ? -1 : x; } return syscall(SYS_lseek, fd, o, w); }
int __wrap_dup(int fd){ Fd *f = get(fd); if (!f) { errno = EBADF; return -1; } if (sim_io.openfail && ++nopen == sim_io.openfail && cur && !cur->noinject) { fault("io.dup_error", false); errno = EMFILE; return -1; } Fd c = *f; if (c.kind == 2) c.p->readers++; else if (c.kind == 3) c.p->writers++; int i = newfd(); fds[i] = c; return i + FDBASE; }  // the two descriptors share their position
int sim_open_fds(void){ int n = 0; for (auto &f : fds) if (f.kind) n++; return n; }
}
std::string io_describe(){ std::string s; for (auto &f : fds) if (f.kind) s += " " + (f.kind == 1 ? f.name : std::string(f.kind == 2 ? "pipe-read" : "pipe-write")); return s; }
