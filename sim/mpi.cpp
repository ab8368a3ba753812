// Simulated MPI: every freedom that the MPI standard leaves to an implementation is a seeded decision.
#include "core.h"
#include <unistd.h>
#include "include/mpi.h"
#include <memory>

double mpi_pdel; int mpi_netmode;
typedef std::vector<std::pair<int,u64>> Sig;
struct Seg { MPI_Aint off; int basic; u64 n; };
struct Type { size_t size; MPI_Aint lb, extent; std::vector<Seg> map; bool committed; };
typedef std::shared_ptr<Type> TypeP;
struct Comm; struct Req; struct Msg; struct Coll;
struct Comm { int id; std::vector<int> wr; std::vector<u64> seq; std::map<u64, Coll*> colls; std::vector<std::deque<Msg*>> arrived; std::vector<std::deque<Req*>> posted; };
struct Msg { Comm *c; int src, dst, tag; std::vector<u8> data; Sig sig; bool snap; const void *buf; int count; TypeP t; Req *sreq; bool matched; u64 id; };
struct Req { int kind; /*1 send 2 recv 3 coll*/ bool active, complete, persistent, cancelled, freed; int mode; void *buf; int count; TypeP t; int peer, tag; Comm *c; int me, rank; Msg *m; std::vector<u8> saved; bool scribbled, late, copied; MPI_Status st; Coll *coll; };
enum CT { C_BARRIER, C_BCAST, C_GATHER, C_SCATTER, C_ALLGATHER, C_ALLTOALL, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_DUP, C_SPLIT };
static const char *ctn[] = {"Barrier","Bcast","Gather","Scatter","Allgather","Alltoall","Reduce","Allreduce","Scan","Exscan","Comm_dup","Comm_split"};
struct Part { bool arrived = false, done = false, snapped = true; int root = 0, op = 0; u64 bytes = 0; std::vector<std::vector<u8>> sd; std::vector<Sig> sg; std::vector<u64> rb; std::vector<Sig> rsig; int color = 0, key = 0; std::function<void()> snap; std::vector<char> needs; };
struct Coll { Comm *c; int type; std::vector<Part> p; int narr = 0, ndone = 0; std::map<int, Comm*> made; std::vector<u8> red; bool redok = false; };
struct Op { MPI_User_function *f; int commute; bool live; };
struct Rank { bool inited, finalized; int level; std::vector<Comm*> comms; std::vector<int> clr; std::vector<TypeP> types; std::vector<Op> ops; std::vector<Req*> reqs; int inmpi; Fiber *main; };
static Rank rk[MAXRANKS]; static Comm *world; static int ncomm; static u64 nmsgid;
static std::map<std::pair<int,std::pair<int,int>>, std::deque<Msg*>> chans;   // (comm,(src,dst)) -> in flight
static const size_t bsize[SIM_MPI_NBASIC] = {0,1,1,1,1,2,2,4,4,8,8,8,8,4,8,16,1,2,4,8,1,2,4,8,1,8,8,8,8,1,4,8,12,8,12};
static int bclass(int b){ // class of basic type for signature matching
  switch (b) { case MPI_BYTE: case MPI_PACKED: return 0; case MPI_FLOAT: return 100; case MPI_DOUBLE: return 101; case MPI_LONG_DOUBLE: return 102; case MPI_2INT: case MPI_DOUBLE_INT: case MPI_FLOAT_INT: case MPI_LONG_INT: return 200 + b; default: return (int)bsize[b]; } }
static TypeP basics[SIM_MPI_NBASIC];

void mpi_reset(){
  for (int i = 1; i < SIM_MPI_NBASIC; i++) { auto t = std::make_shared<Type>(); t->size = bsize[i]; t->lb = 0; t->extent = (MPI_Aint)bsize[i]; t->map = {Seg{0, i, 1}}; t->committed = true; basics[i] = t; }
  if (basics[MPI_DOUBLE_INT]) basics[MPI_DOUBLE_INT]->extent = 16; if (basics[MPI_LONG_INT]) basics[MPI_LONG_INT]->extent = 16;
  for (auto &r : rk) { r = Rank(); }
  world = nullptr; ncomm = 0; nmsgid = 0; chans.clear();
}
static std::vector<Comm*> allcomms;
static Comm *mkcomm(const std::vector<int> &w){ Comm *c = new Comm(); allcomms.push_back(c); c->id = ncomm++; c->wr = w; c->seq.assign(w.size(), 0); c->arrived.resize(w.size()); c->posted.resize(w.size()); return c; }
static void ensure_world(){ if (!world) { std::vector<int> v; for (int i = 0; i < g_nranks; i++) v.push_back(i); world = mkcomm(v); } }
static int addcomm(int r, Comm *c, int l){ rk[r].comms.push_back(c); rk[r].clr.push_back(l); return (int)rk[r].comms.size() - 1; }
static int me(){ return cur->rank; }
struct InMpi { int r; InMpi(const char *what, bool need = true) { if (!cur) { fprintf(stderr, "MPI call outside of a run\n"); _exit(3); } r = cur->rank; Rank &k = rk[r];
    if (need && (!k.inited || k.finalized)) violation("mpi-misuse", "%s called outside of MPI_Init/MPI_Finalize", what);
    if (need && k.level < MPI_THREAD_MULTIPLE) { if (k.level < MPI_THREAD_SERIALIZED && cur != k.main) violation("mpi-thread-level", "%s called by a second thread although only level %d was provided", what, k.level); if (k.inmpi) violation("mpi-thread-level", "%s called while another thread is inside MPI although only level %d was provided", what, k.level); }
    k.inmpi++; hmix(mix64((u64)(uintptr_t)what[4] * 131 + (u64)strlen(what) * 7 + r)); g_clock_us++; sched_point(what); }
  ~InMpi(){ rk[r].inmpi--; } };
static Comm *cm(MPI_Comm h, int &l, const char *what){
  Rank &k = rk[me()]; if (h <= 0 || h >= (int)k.comms.size() || !k.comms[h]) violation("mpi-misuse", "%s on an invalid communicator", what);
  l = k.clr[h]; return k.comms[h]; }
static TypeP ty(MPI_Datatype t, const char *what, bool commit = true){
  if (t > 0 && t < SIM_MPI_NBASIC) return basics[t];
  Rank &k = rk[me()]; int i = t - 1000; if (i < 0 || i >= (int)k.types.size() || !k.types[i]) violation("mpi-misuse", "%s with an invalid datatype", what);
  if (commit && !k.types[i]->committed) violation("mpi-misuse", "%s with a datatype that was not committed", what);
  return k.types[i]; }
static void sigadd(Sig &s, int b, u64 n){ if (!n) return; int c = bclass(b); if (!s.empty() && s.back().first == c) s.back().second += n; else s.push_back({c, n}); }
static bool simple(const Type &t){ return t.map.size() == 1 && t.map[0].off == 0 && (MPI_Aint)(t.map[0].n * bsize[t.map[0].basic]) == t.extent; }
static void pack(const void *buf, int count, const Type &t, std::vector<u8> &out, Sig *sig, const char *what){
  if (count < 0) violation("mpi-misuse", "%s with a negative count", what);
  size_t o = out.size(); out.resize(o + t.size * count);
  if (simple(t)) { size_t n = t.size * count; if (n) { check_range(buf, n, false, what); memcpy(out.data() + o, buf, n); } if (sig) sigadd(*sig, t.map[0].basic, t.map[0].n * (u64)count); return; }
  for (int i = 0; i < count; i++) for (auto &g : t.map) { size_t n = g.n * bsize[g.basic]; const char *p = (const char*)buf + i * t.extent + g.off; check_range(p, n, false, what); memcpy(out.data() + o, p, n); o += n; if (sig) sigadd(*sig, g.basic, g.n); }
}
static size_t unpack(void *buf, int count, const Type &t, const u8 *d, size_t nb, const char *what){ // returns bytes consumed
  size_t o = 0;
  if (simple(t)) { size_t n = std::min(nb, t.size * count); if (n) { check_range(buf, n, true, what); memcpy(buf, d, n); } return n; }
  for (int i = 0; i < count && o < nb; i++) for (auto &g : t.map) { size_t n = std::min(g.n * bsize[g.basic], nb - o); if (!n) return o; char *p = (char*)buf + i * t.extent + g.off; check_range(p, n, true, what); memcpy(p, d + o, n); o += n; }
  return o;
}
static bool sigmatch(const Sig &a, const Sig &b, bool prefix){ // a sent, b room
  for (auto &x : a) if (x.first == 0) return true; for (auto &x : b) if (x.first == 0) return true;
  size_t i = 0, j = 0; u64 ra = 0, rb = 0;
  for (;;) { if (!ra) { if (i == a.size()) break; ra = a[i++].second; } if (!rb) { if (j == b.size()) return false; rb = b[j++].second; }
    if (a[i-1].first != b[j-1].first) return false; u64 k = std::min(ra, rb); ra -= k; rb -= k; }
  return prefix || (rb == 0 && j == b.size()); }
static Sig sigof(int count, const Type &t){ Sig s; if (simple(t)) { sigadd(s, t.map[0].basic, t.map[0].n * (u64)count); return s; } for (int i = 0; i < count; i++) for (auto &g : t.map) sigadd(s, g.basic, g.n); return s; }
static bool overlap(const void *a, size_t na, const void *b, size_t nb){ return na && nb && (const char*)a < (const char*)b + nb && (const char*)b < (const char*)a + na; }

// ---------------------------------------------------------------- point to point
static void msnap(Msg *m){ if (m->snap) return; pack(m->buf, m->count, *m->t, m->data, nullptr, "MPI send"); m->snap = true; }
static void deliver_to(Req *r){ // copy matched message into receive buffer
  if (r->copied) return; r->copied = true; Msg *m = r->m;
  if (r->scribbled) unpack(r->buf, r->count, *r->t, r->saved.data(), r->saved.size(), "MPI receive");
  unpack(r->buf, r->count, *r->t, m->data.data(), m->data.size(), "MPI receive");
  hbytes(m->data.data(), m->data.size());
}
static void match(Req *r, Msg *m){
  m->matched = true; msnap(m); r->m = m; r->complete = true;
  size_t room = r->t->size * (size_t)r->count;
  if (m->data.size() > room) violation("mpi-truncate", "message of %zu bytes from process %d tag %d received in a buffer of %zu bytes on process %d", m->data.size(), m->src, m->tag, room, m->dst);
  if (!sigmatch(m->sig, sigof(r->count, *r->t), true)) violation("mpi-type", "message from process %d tag %d received with another datatype on process %d", m->src, m->tag, m->dst);
  r->st.MPI_SOURCE = m->src; r->st.MPI_TAG = m->tag; r->st.MPI_ERROR = 0; r->st.sim_bytes = m->data.size(); r->st.sim_cancelled = 0;
  if (m->sreq) { m->sreq->complete = true; wake_all(&rk[m->sreq->rank]); m->sreq->m = nullptr; m->sreq = nullptr; }
  if (!r->late) deliver_to(r);
  wake_all(&rk[r->rank]);
}
static bool fits(Req *r, Msg *m){ return (r->peer == MPI_ANY_SOURCE || r->peer == m->src) && (r->tag == MPI_ANY_TAG || r->tag == m->tag); }
static void arrive(Msg *m){
  R->ndeliver++; hmix(m->id * 3 + 1); R->schedhash = mix64(R->schedhash * 5 + m->id);
  auto &P = m->c->posted[m->dst];
  for (size_t i = 0; i < P.size(); i++) if (fits(P[i], m)) { Req *r = P[i]; P.erase(P.begin() + i); match(r, m); return; }
  m->c->arrived[m->dst].push_back(m);
  wake_all(&rk[m->c->wr[m->dst]]);
}
bool mpi_deliver_some(bool force){
  if (chans.empty()) return false;
  u32 n = (u32)chans.size(), v;
  if (force) v = sdec(n, 0.7); else { v = sdec(n + 1, mpi_pdel); if (!v) return false; v--; }
  auto it = chans.begin(); std::advance(it, v); Msg *m = it->second.front(); it->second.pop_front(); if (it->second.empty()) chans.erase(it);
  arrive(m); return true;
}
static void dispatch(Msg *m){
  R->nmsg++; m->id = nmsgid++;
  if (mpi_netmode == 0) { arrive(m); return; }
  chans[{m->c->id, {m->src, m->dst}}].push_back(m);
}
static Req *newreq(int kind, MPI_Request *h){ Req *r = new Req(); r->kind = kind; r->rank = me(); Rank &k = rk[me()]; size_t i = 1; if (k.reqs.empty()) k.reqs.push_back(nullptr); for (; i < k.reqs.size(); i++) if (!k.reqs[i]) break; if (i == k.reqs.size()) k.reqs.push_back(nullptr); k.reqs[i] = r; if (h) *h = (int)i; return r; }
static void dropreq(int h){ rk[me()].reqs[h] = nullptr; }
static void start_send(Req *r){
  r->active = true; r->complete = false;
  Msg *m = new Msg(); m->c = r->c; m->src = r->me; m->dst = r->peer; m->tag = r->tag; m->buf = r->buf; m->count = r->count; m->t = r->t; m->snap = false; m->matched = false; m->sreq = nullptr;
  m->sig = sigof(r->count, *r->t);
  { std::vector<u8> tmp; pack(r->buf, r->count, *r->t, tmp, nullptr, "MPI send"); }   // legality of the buffer
  r->m = m;
  if (r->mode == 0) { msnap(m); r->complete = true; r->m = nullptr; }
  else { m->sreq = r; if (r->mode == 2) R->nrndv++; }
  dispatch(m);
}
static void start_recv(Req *r){
  r->active = true; r->complete = false; r->m = nullptr; r->copied = false; r->cancelled = false; r->scribbled = false; r->saved.clear();
  size_t room = r->t->size * (size_t)r->count;
  if (r->mode) { r->saved.clear(); pack(r->buf, r->count, *r->t, r->saved, nullptr, "MPI receive buffer"); std::vector<u8> junk(room, 0x5A); unpack(r->buf, r->count, *r->t, junk.data(), junk.size(), "MPI receive buffer"); r->scribbled = true; }
  auto &A = r->c->arrived[r->me];
  int nsrc = 0; for (auto m : A) if (fits(r, m)) nsrc++;
  if (nsrc > 1 && r->peer == MPI_ANY_SOURCE) {   // first of any source that has one: non-overtaking per source only
    R->nany++; std::vector<size_t> c; std::vector<int> seen; for (size_t i = 0; i < A.size(); i++) if (fits(r, A[i]) && std::find(seen.begin(), seen.end(), A[i]->src) == seen.end()) { seen.push_back(A[i]->src); c.push_back(i); }
    size_t i = c[sdec((u32)c.size(), 0.6)]; Msg *m = A[i]; A.erase(A.begin() + i); match(r, m); return; }
  for (size_t i = 0; i < A.size(); i++) if (fits(r, A[i])) { Msg *m = A[i]; A.erase(A.begin() + i); match(r, m); return; }
  r->c->posted[r->me].push_back(r);
}
static void chkp(Comm *c, int peer, int tag, bool recv, const char *what){
  if (!(peer >= 0 && peer < (int)c->wr.size()) && !(recv && peer == MPI_ANY_SOURCE)) violation("mpi-misuse", "%s with an invalid process number", what);
  if (tag < 0 && !(recv && tag == MPI_ANY_TAG)) violation("mpi-misuse", "%s with an invalid tag", what); }
static int mksend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm h, MPI_Request *q, int mode, bool start, const char *what){
  int l; Comm *c = cm(h, l, what); chkp(c, dst, tag, false, what); TypeP tp = ty(t, what); if (n < 0) violation("mpi-misuse", "%s with a negative count", what);
  Req *r = newreq(1, q); r->buf = (void*)b; r->count = n; r->t = tp; r->peer = dst; r->tag = tag; r->c = c; r->me = l; r->mode = mode; r->persistent = !start;
  if (start) start_send(r); return 0; }
static int mkrecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm h, MPI_Request *q, int mode, bool start, const char *what){
  int l; Comm *c = cm(h, l, what); chkp(c, src, tag, true, what); TypeP tp = ty(t, what); if (n < 0) violation("mpi-misuse", "%s with a negative count", what);
  Req *r = newreq(2, q); r->buf = b; r->count = n; r->t = tp; r->peer = src; r->tag = tag; r->c = c; r->me = l; r->mode = mode & 1; r->late = mode & 2; if (r->late) R->nlate++; r->persistent = !start;
  if (start) start_recv(r); return 0; }
static bool coll_ready(Coll *k, int l, bool full); static void coll_finish(Coll *k, int l);
static std::map<Req*, std::function<void()>> collfin;
static bool ready(Req *r){ if (!r->active) return true; if (r->kind == 1) return r->mode == 1 ? true : r->complete; if (r->kind == 2) return r->complete; return coll_ready(r->coll, r->me, r->mode); }
static void retire(MPI_Request *q, MPI_Status *st){ // request is ready
  if (*q == MPI_REQUEST_NULL) { if (st) { st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; st->MPI_ERROR = 0; st->sim_bytes = 0; st->sim_cancelled = 0; } return; }
  Req *r = rk[me()].reqs[*q];
  if (!r->active) { if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = MPI_ANY_SOURCE; st->MPI_TAG = MPI_ANY_TAG; } return; }
  if (r->kind == 1) { if (r->mode == 1 && r->m) { msnap(r->m); r->m->sreq = nullptr; r->m = nullptr; } }
  else if (r->kind == 2) { if (!r->cancelled) deliver_to(r); else if (r->scribbled) unpack(r->buf, r->count, *r->t, r->saved.data(), r->saved.size(), "MPI cancel"); if (st) *st = r->st; }
  else { collfin[r](); collfin.erase(r); }
  r->active = false;
  if (st && r->kind != 2) memset(st, 0, sizeof *st);
  if (!r->persistent) { dropreq(*q); delete r; *q = MPI_REQUEST_NULL; }
}
static Req *rq(MPI_Request q, const char *what){ Rank &k = rk[me()]; if (q < 0 || q >= (int)k.reqs.size() || !k.reqs[q]) violation("mpi-misuse", "%s on an invalid request", what); return k.reqs[q]; }
static const void *wobj(Req *r){ return &rk[me()]; }
static void wait1(MPI_Request *q, MPI_Status *st, const char *what){
  if (*q != MPI_REQUEST_NULL) { Req *r = rq(*q, what); while (!ready(r)) block_on(wobj(r), what); }
  retire(q, st); }
extern "C" {
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h){ InMpi g("MPI_Send"); if (d == MPI_PROC_NULL) return 0; MPI_Request q; mksend(b, n, t, d, tag, h, &q, sim_knobs.eager_only ? 0 : (sdec(2, 0.5) ? 2 : 0), true, "MPI_Send"); wait1(&q, nullptr, "MPI_Send"); return 0; }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h){ InMpi g("MPI_Ssend"); if (d == MPI_PROC_NULL) return 0; MPI_Request q; mksend(b, n, t, d, tag, h, &q, 2, true, "MPI_Ssend"); wait1(&q, nullptr, "MPI_Ssend"); return 0; }
int MPI_Bsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h){ return MPI_Send(b, n, t, d, tag, h); }
int MPI_Rsend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h){ return MPI_Send(b, n, t, d, tag, h); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Status *st){ InMpi g("MPI_Recv"); if (s == MPI_PROC_NULL) return 0; MPI_Request q; mkrecv(b, n, t, s, tag, h, &q, 0, true, "MPI_Recv"); wait1(&q, st, "MPI_Recv"); return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Isend"); return mksend(b, n, t, d, tag, h, q, (int)sdec(3, 0.7), true, "MPI_Isend"); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Issend"); return mksend(b, n, t, d, tag, h, q, 2, true, "MPI_Issend"); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Irecv"); return mkrecv(b, n, t, s, tag, h, q, (int)sdec(4, 0.8), true, "MPI_Irecv"); }
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Send_init"); return mksend(b, n, t, d, tag, h, q, (int)sdec(3, 0.7), false, "MPI_Send_init"); }
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Recv_init"); return mkrecv(b, n, t, s, tag, h, q, (int)sdec(4, 0.8), false, "MPI_Recv_init"); }
int MPI_Startall(int n, MPI_Request *q){ InMpi g("MPI_Startall"); for (int i = 0; i < n; i++) { Req *r = rq(q[i], "MPI_Startall"); if (!r->persistent || r->active) violation("mpi-misuse", "MPI_Start on a request that is active or not persistent"); if (r->kind == 1) start_send(r); else start_recv(r); } return 0; }
int MPI_Start(MPI_Request *q){ return MPI_Startall(1, q); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int tag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm h, MPI_Status *st){
  InMpi g("MPI_Sendrecv"); MPI_Request a = 0, b = 0;
  TypeP t1 = ty(stp, "MPI_Sendrecv"), t2 = ty(rt, "MPI_Sendrecv"); if (d >= 0 && s >= 0 && overlap(sb, sn * (size_t)t1->extent, rb, rn * (size_t)t2->extent)) violation("mpi-alias", "send and receive buffers of MPI_Sendrecv overlap");
  if (s != MPI_PROC_NULL) mkrecv(rb, rn, rt, s, rtag, h, &b, 0, true, "MPI_Sendrecv"); if (d != MPI_PROC_NULL) mksend(sb, sn, stp, d, tag, h, &a, sdec(2, 0.5) ? 2 : 0, true, "MPI_Sendrecv");
  wait1(&a, nullptr, "MPI_Sendrecv"); wait1(&b, st, "MPI_Sendrecv"); return 0; }
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int tag, int s, int rtag, MPI_Comm h, MPI_Status *st){ TypeP tp = ty(t, "x"); std::vector<u8> tmp; { pack(b, n, *tp, tmp, nullptr, "MPI_Sendrecv_replace"); } return MPI_Sendrecv(tmp.data(), (int)tmp.size(), MPI_BYTE, d, tag, b, n, t, s, rtag, h, st); }
int MPI_Wait(MPI_Request *q, MPI_Status *st){ InMpi g("MPI_Wait"); wait1(q, st, "MPI_Wait"); return 0; }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st){ InMpi g("MPI_Waitall"); for (int i = 0; i < n; i++) if (q[i]) rq(q[i], "MPI_Waitall"); for (int i = 0; i < n; i++) wait1(&q[i], st ? &st[i] : nullptr, "MPI_Waitall"); return 0; }
static int anyready(int n, MPI_Request *q, int &nact){ int c = 0; nact = 0; for (int i = 0; i < n; i++) if (q[i]) { Req *r = rq(q[i], "MPI_Waitany"); if (r->active) { nact++; if (ready(r)) c++; } } return c; }
static int pickready(int n, MPI_Request *q, int c){ int k = (int)sdec(c, 0.6); if (c > 1) R->nany++; for (int i = 0; i < n; i++) if (q[i]) { Req *r = rk[me()].reqs[q[i]]; if (r->active && ready(r) && k-- == 0) return i; } return -1; }
int MPI_Waitany(int n, MPI_Request *q, int *idx, MPI_Status *st){
  InMpi g("MPI_Waitany"); int na; for (;;) { int c = anyready(n, q, na); if (!na) { *idx = MPI_UNDEFINED; MPI_Request z = 0; retire(&z, st); return 0; } if (c) { int i = pickready(n, q, c); hmix(i + 31); R->schedhash = mix64(R->schedhash * 7 + i); *idx = i; retire(&q[i], st); return 0; } block_on(&rk[me()], "MPI_Waitany"); } }
int MPI_Waitsome(int n, MPI_Request *q, int *cnt, int *idx, MPI_Status *st){ int i; int r = MPI_Waitany(n, q, &i, st); if (i == MPI_UNDEFINED) *cnt = MPI_UNDEFINED; else { *cnt = 1; idx[0] = i; } return r; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st){ InMpi g("MPI_Test"); if (mpi_netmode) mpi_deliver_some(sdec(2, 0.3) == 1); if (*q && !ready(rq(*q, "MPI_Test"))) { *flag = 0; if (cur->consec_pts > 100) mpi_deliver_some(true); return 0; } *flag = 1; retire(q, st); return 0; }
int MPI_Testall(int n, MPI_Request *q, int *flag, MPI_Status *st){ InMpi g("MPI_Testall"); for (int i = 0; i < n; i++) if (q[i] && !ready(rq(q[i], "MPI_Testall"))) { *flag = 0; mpi_deliver_some(true); return 0; } *flag = 1; for (int i = 0; i < n; i++) retire(&q[i], st ? &st[i] : nullptr); return 0; }
int MPI_Testany(int n, MPI_Request *q, int *idx, int *flag, MPI_Status *st){ InMpi g("MPI_Testany"); int na; int c = anyready(n, q, na); if (!na) { *flag = 1; *idx = MPI_UNDEFINED; return 0; } if (!c) { *flag = 0; *idx = MPI_UNDEFINED; mpi_deliver_some(true); return 0; } int i = pickready(n, q, c); *flag = 1; *idx = i; retire(&q[i], st); return 0; }
static Msg *findm(Comm *c, int l, int s, int tag){ for (auto m : c->arrived[l]) if ((s == MPI_ANY_SOURCE || s == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) return m; return nullptr; }
int MPI_Iprobe(int s, int tag, MPI_Comm h, int *flag, MPI_Status *st){ InMpi g("MPI_Iprobe"); int l; Comm *c = cm(h, l, "MPI_Iprobe"); Msg *m = findm(c, l, s, tag); *flag = m != nullptr; if (m && st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->sim_bytes = m->t->size * m->count; } if (!m && cur->consec_pts > 100) mpi_deliver_some(true); return 0; }
int MPI_Probe(int s, int tag, MPI_Comm h, MPI_Status *st){ InMpi g("MPI_Probe"); int l; Comm *c = cm(h, l, "MPI_Probe"); Msg *m; while (!(m = findm(c, l, s, tag))) block_on(&rk[me()], "MPI_Probe"); if (st) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->sim_bytes = m->t->size * m->count; } return 0; }
int MPI_Cancel(MPI_Request *q){ InMpi g("MPI_Cancel"); Req *r = rq(*q, "MPI_Cancel"); if (r->kind == 2 && r->active && !r->complete) { auto &P = r->c->posted[r->me]; P.erase(std::find(P.begin(), P.end(), r)); r->complete = r->cancelled = true; r->st.sim_cancelled = 1; r->st.sim_bytes = 0; wake_all(&rk[me()]); } return 0; }
int MPI_Test_cancelled(const MPI_Status *s, int *f){ *f = s->sim_cancelled; return 0; }
int MPI_Request_free(MPI_Request *q){ InMpi g("MPI_Request_free"); Req *r = rq(*q, "MPI_Request_free");
  if (r->kind == 2 && r->active) { if (r->cancelled) { if (r->scribbled) unpack(r->buf, r->count, *r->t, r->saved.data(), r->saved.size(), "MPI cancel"); } else if (r->complete) deliver_to(r); else violation("mpi-leak", "MPI_Request_free on a receive that is still pending"); }
  if (r->kind == 1 && r->active && r->m) { msnap(r->m); r->m->sreq = nullptr; }
  dropreq(*q); *q = MPI_REQUEST_NULL; return 0; }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n){ TypeP tp = ty(t, "MPI_Get_count"); *n = !tp->size ? 0 : st->sim_bytes % tp->size ? MPI_UNDEFINED : (int)(st->sim_bytes / tp->size); return 0; }
}

// ---------------------------------------------------------------- collectives
static Coll *centry(Comm *c, int l, int type, Part &&p){
  u64 s = c->seq[l]++; Coll *&k = c->colls[s]; R->ncoll++;
  if (!k) { k = new Coll(); k->c = c; k->type = type; k->p.resize(c->wr.size()); }
  if (k->type != type) violation("mpi-mismatch", "process %d calls MPI_%s while another process of the communicator calls MPI_%s", l, ctn[type], ctn[k->type]);
  for (size_t i = 0; i < k->p.size(); i++) if (k->p[i].arrived) {
    Part &o = k->p[i];
    if ((type == C_BCAST || type == C_GATHER || type == C_SCATTER || type == C_REDUCE) && o.root != p.root) violation("mpi-mismatch", "MPI_%s with root %d on process %d and root %d on process %d", ctn[type], p.root, l, o.root, (int)i);
    if ((type == C_REDUCE || type == C_ALLREDUCE || type == C_SCAN || type == C_EXSCAN) && (o.op < 1000 || p.op < 1000) && o.op != p.op) violation("mpi-mismatch", "MPI_%s with different operations", ctn[type]);
    if ((type == C_REDUCE || type == C_ALLREDUCE || type == C_SCAN || type == C_EXSCAN || type == C_BCAST) && o.bytes != p.bytes) violation("mpi-mismatch", "MPI_%s with %llu bytes on process %d and %llu bytes on process %d", ctn[type], (unsigned long long)p.bytes, l, (unsigned long long)o.bytes, (int)i);
    break; }
  p.arrived = true; k->p[l] = std::move(p); k->narr++;
  wake_all(k); for (int w : c->wr) wake_all(&rk[w]);
  return k; }
static bool coll_ready(Coll *k, int l, bool full){
  int n = (int)k->p.size(); Part &me = k->p[l];
  if (full) return k->narr == n;
  switch (k->type) {
    case C_BCAST: case C_SCATTER: return k->p[me.root].arrived;
    case C_GATHER: case C_REDUCE: if (l != me.root) return true; break;
    case C_SCAN: for (int i = 0; i <= l; i++) if (!k->p[i].arrived) return false; return true;
    case C_EXSCAN: for (int i = 0; i < l; i++) if (!k->p[i].arrived) return false; return true;
    case C_ALLGATHER: case C_ALLTOALL: if (me.needs.empty()) break; for (int i = 0; i < n; i++) if (me.needs[i] && !k->p[i].arrived) return false; return true;
  }
  if ((k->type == C_GATHER) && !me.needs.empty()) { for (int i = 0; i < n; i++) if (me.needs[i] && !k->p[i].arrived) return false; return true; }
  return k->narr == n; }
static void coll_finish(Coll *k, int l){ k->p[l].done = true; if (++k->ndone == (int)k->p.size()) { for (auto it = k->c->colls.begin(); it != k->c->colls.end(); ++it) if (it->second == k) { k->c->colls.erase(it); break; } delete k; } }
static void cwait(Coll *k, int l, const char *what){ bool full = sdec(2, 0.5) == 1; while (!coll_ready(k, l, full)) block_on(k, what); }
static void csnap(Part &p){ if (!p.snapped) { p.snap(); p.snapped = true; } }
static std::vector<u8>& from(Coll *k, int src, int idx, Sig **sg){ Part &p = k->p[src]; csnap(p); if (sg) *sg = &p.sg[idx]; return p.sd[idx]; }
static void take(Coll *k, int l, int src, int idx, void *buf, int count, const TypeP &t){
  if (!k->p[src].arrived) { if (count == 0 || t->size == 0) return; }
  Sig *sg; std::vector<u8> &d = from(k, src, idx, &sg); size_t room = t->size * (size_t)count;
  if (d.size() != room) violation("mpi-mismatch", "MPI_%s: process %d sends %zu bytes to process %d which expects %zu", ctn[k->type], src, d.size(), l, room);
  if (!sigmatch(*sg, sigof(count, *t), false)) violation("mpi-type", "MPI_%s: process %d sends to process %d with another datatype", ctn[k->type], src, l);
  unpack(buf, count, *t, d.data(), d.size(), ctn[k->type]); hbytes(d.data(), d.size()); }
static void give(Part &p, const void *b, int n, const TypeP &t, const char *w){ p.sd.emplace_back(); p.sg.emplace_back(); pack(b, n, *t, p.sd.back(), &p.sg.back(), w); }
static void alias(const void *a, size_t na, const void *b, size_t nb, const char *w){ if (a == MPI_IN_PLACE || b == MPI_IN_PLACE) return; if (overlap(a, na, b, nb)) violation("mpi-alias", "send and receive buffers of %s overlap", w); }
template<class T> static void fo(int op, const T *a, T *b, size_t n){ for (size_t i = 0; i < n; i++) switch (op) { case MPI_SUM: b[i] = a[i] + b[i]; break; case MPI_PROD: b[i] = a[i] * b[i]; break; case MPI_MAX: b[i] = std::max(a[i], b[i]); break; case MPI_MIN: b[i] = std::min(a[i], b[i]); break; case MPI_LOR: b[i] = a[i] || b[i]; break; case MPI_LAND: b[i] = a[i] && b[i]; break; default: violation("mpi-misuse", "unsupported reduction operation"); } }
template<class T> static void foi(int op, const T *a, T *b, size_t n){ for (size_t i = 0; i < n; i++) switch (op) { case MPI_BOR: b[i] |= a[i]; break; case MPI_BAND: b[i] &= a[i]; break; case MPI_BXOR: b[i] ^= a[i]; break; case MPI_LXOR: b[i] = !a[i] != !b[i]; break; default: fo(op, a + i, b + i, 1); } }
static void fold(int op, void *in, void *io, int count, const TypeP &t, MPI_Datatype td){
  if (op >= 1000) { Op &o = rk[me()].ops[op - 1000]; CurNoPreempt np; int n = count; MPI_Datatype d = td; o.f(in, io, &n, &d); return; }
  if (t->map.size() != 1) violation("mpi-misuse", "built-in reduction on a derived datatype"); size_t n = t->map[0].n * (size_t)count;
  switch (t->map[0].basic) {
    case MPI_INT: case MPI_INT32_T: foi(op, (int*)in, (int*)io, n); break; case MPI_UNSIGNED: case MPI_UINT32_T: foi(op, (unsigned*)in, (unsigned*)io, n); break;
    case MPI_LONG: case MPI_INT64_T: case MPI_LONG_LONG: case MPI_LONG_LONG_INT: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT: foi(op, (long*)in, (long*)io, n); break; case MPI_UNSIGNED_LONG: case MPI_UINT64_T: case MPI_UNSIGNED_LONG_LONG: foi(op, (unsigned long*)in, (unsigned long*)io, n); break;
    case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: foi(op, (u8*)in, (u8*)io, n); break; case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: foi(op, (signed char*)in, (signed char*)io, n); break; case MPI_SHORT: case MPI_INT16_T: foi(op, (short*)in, (short*)io, n); break;
    case MPI_FLOAT: fo(op, (float*)in, (float*)io, n); break; case MPI_DOUBLE: fo(op, (double*)in, (double*)io, n); break; default: violation("mpi-misuse", "unsupported reduction datatype"); } }
// buffers for reductions are contiguous images with the extent of the type
struct Img { void *p; Img(size_t n){ p = sim_alloc(n + 16); } ~Img(){ sim_free(p); } };
static void reduce_range(Coll *k, int lo, int hi, MPI_Op op, int count, const TypeP &t, MPI_Datatype td, std::vector<u8> &out){
  // combines contributions lo..hi-1; rank order, or any order for commutative operations when allowed
  int n = hi - lo; std::vector<int> ord; for (int i = lo; i < hi; i++) ord.push_back(i);
  bool comm = op < 1000 || rk[me()].ops[op - 1000].commute;
  if (comm && !sim_knobs.canon_reduce) for (int i = n - 1; i > 0; i--) { int j = i - (int)sdec(i + 1, 0.5); std::swap(ord[i], ord[j]); }
  size_t ext = (size_t)t->extent * count; Img a(ext), b(ext);
  // MPI: inout = in op inout, operands in rank order: fold from the right
  auto load = [&](Img &x, int r){ std::vector<u8> &d = from(k, r, 0, nullptr); unpack(x.p, count, *t, d.data(), d.size(), "reduction"); };
  load(b, ord[n - 1]);
  for (int i = n - 2; i >= 0; i--) { load(a, ord[i]); fold(op, a.p, b.p, count, t, td); }
  out.clear(); pack(b.p, count, *t, out, nullptr, "reduction"); }
static int opx(MPI_Op op, const char *w){ if (op >= 1000) { int i = op - 1000; if (i >= (int)rk[me()].ops.size() || !rk[me()].ops[i].live) violation("mpi-misuse", "%s with an invalid operation", w); } else if (op <= 0 || op > MPI_MINLOC) violation("mpi-misuse", "%s with an invalid operation", w); return op; }
static int redcoll(int type, const void *sb, void *rb, int n, MPI_Datatype td, MPI_Op op, int root, MPI_Comm h, const char *w, MPI_Request *q = nullptr){
  int l; Comm *c = cm(h, l, w); TypeP t = ty(td, w); opx(op, w);
  bool hasr = type != C_REDUCE || l == root; const void *src = sb == MPI_IN_PLACE ? rb : sb;
  if (hasr && sb != MPI_IN_PLACE) alias(sb, t->extent * (size_t)n, rb, t->extent * (size_t)n, w);
  Part p; p.root = root; p.op = op; p.bytes = t->size * (u64)n; give(p, src, n, t, w);
  if (hasr && n && rb) check_range(rb, simple(*t) ? t->size * (size_t)n : 0, true, w);
  Coll *k = centry(c, l, type, std::move(p));
  auto fin = [=]{
    std::vector<u8> out; int sz = (int)c->wr.size();
    if (type == C_ALLREDUCE) { if (!k->redok) { reduce_range(k, 0, sz, op, n, t, td, k->red); k->redok = true; } unpack(rb, n, *t, k->red.data(), k->red.size(), w); hbytes(k->red.data(), k->red.size()); }
    else if (type == C_REDUCE) { if (l == root) { reduce_range(k, 0, sz, op, n, t, td, out); unpack(rb, n, *t, out.data(), out.size(), w); } }
    else if (type == C_SCAN) { reduce_range(k, 0, l + 1, op, n, t, td, out); unpack(rb, n, *t, out.data(), out.size(), w); }
    else if (l > 0) { reduce_range(k, 0, l, op, n, t, td, out); unpack(rb, n, *t, out.data(), out.size(), w); }
    coll_finish(k, l); };
  if (q) { Req *r = newreq(3, q); r->active = true; r->coll = k; r->me = l; r->c = c; r->mode = (int)sdec(2, 0.5); collfin[r] = fin; return 0; }
  cwait(k, l, w); fin(); return 0; }
extern "C" {
int MPI_Barrier(MPI_Comm h){ InMpi g("MPI_Barrier"); int l; Comm *c = cm(h, l, "MPI_Barrier"); Part p; Coll *k = centry(c, l, C_BARRIER, std::move(p)); cwait(k, l, "MPI_Barrier"); coll_finish(k, l); return 0; }
int MPI_Ibarrier(MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Ibarrier"); int l; Comm *c = cm(h, l, "MPI_Ibarrier"); Part p; Coll *k = centry(c, l, C_BARRIER, std::move(p)); Req *r = newreq(3, q); r->active = true; r->coll = k; r->me = l; r->c = c; r->mode = 1; collfin[r] = [=]{ coll_finish(k, l); }; return 0; }
static int bcast(void *b, int n, MPI_Datatype td, int root, MPI_Comm h, const char *w){ int l; Comm *c = cm(h, l, w); TypeP t = ty(td, w); if (root < 0 || root >= (int)c->wr.size()) violation("mpi-misuse", "%s with invalid root", w); Part p; p.root = root; p.bytes = t->size * (u64)n; if (l == root) give(p, b, n, t, w); Coll *k = centry(c, l, C_BCAST, std::move(p)); cwait(k, l, w); if (l != root) take(k, l, root, 0, b, n, t); coll_finish(k, l); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype td, int root, MPI_Comm h){ InMpi g("MPI_Bcast"); return bcast(b, n, td, root, h, "MPI_Bcast"); }
int MPI_Ibcast(void *b, int n, MPI_Datatype td, int root, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Ibcast"); *q = MPI_REQUEST_NULL; return bcast(b, n, td, root, h, "MPI_Ibcast"); }
static int gatherx(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *rd, int rn1, MPI_Datatype rt, int root, MPI_Comm h, const char *w){
  int l; Comm *c = cm(h, l, w); int sz = (int)c->wr.size(); if (root < 0 || root >= sz) violation("mpi-misuse", "%s with invalid root", w);
  bool inpl = sb == MPI_IN_PLACE && l == root; TypeP tr; Part p; p.root = root;
  if (l == root) { tr = ty(rt, w); p.needs.resize(sz); for (int i = 0; i < sz; i++) p.needs[i] = (rn ? rn[i] : rn1) > 0; 
    if (!inpl) { TypeP ts = ty(st, w); for (int i = 0; i < sz; i++) alias(sb, ts->extent * (size_t)sn, (char*)rb + tr->extent * (MPI_Aint)(rn ? rd[i] : i * rn1), tr->extent * (size_t)(rn ? rn[i] : rn1), w); } }
  if (inpl) { p.sd.emplace_back(); p.sg.emplace_back(); } else give(p, sb, sn, ty(st, w), w);
  Coll *k = centry(c, l, C_GATHER, std::move(p)); cwait(k, l, w);
  if (l == root) for (int i = 0; i < sz; i++) { if (inpl && i == l) continue; take(k, l, i, 0, (char*)rb + tr->extent * (MPI_Aint)(rn ? rd[i] : i * rn1), rn ? rn[i] : rn1, tr); }
  coll_finish(k, l); return 0; }
int MPI_Gather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm h){ InMpi g("MPI_Gather"); return gatherx(sb, sn, st, rb, nullptr, nullptr, rn, rt, root, h, "MPI_Gather"); }
int MPI_Gatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, int root, MPI_Comm h){ InMpi g("MPI_Gatherv"); int l; cm(h, l, "MPI_Gatherv"); static const int z = 0; return gatherx(sb, sn, st, rb, l == root ? rn : &z, rd, 0, rt, root, h, "MPI_Gatherv"); }
static int scatterx(const void *sb, const int *sn, const int *sd, int sn1, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm h, const char *w){
  int l; Comm *c = cm(h, l, w); int sz = (int)c->wr.size(); if (root < 0 || root >= sz) violation("mpi-misuse", "%s with invalid root", w); Part p; p.root = root; bool inpl = rb == MPI_IN_PLACE && l == root;
  if (l == root) { TypeP ts = ty(st, w); for (int i = 0; i < sz; i++) { const char *b = (const char*)sb + ts->extent * (MPI_Aint)(sn ? sd[i] : i * sn1); if (!inpl) { TypeP tr = ty(rt, w); alias(b, ts->extent * (size_t)(sn ? sn[i] : sn1), rb, tr->extent * (size_t)rn, w); } give(p, b, sn ? sn[i] : sn1, ts, w); } }
  Coll *k = centry(c, l, C_SCATTER, std::move(p)); cwait(k, l, w); if (!inpl) take(k, l, root, l, rb, rn, ty(rt, w)); coll_finish(k, l); return 0; }
int MPI_Scatter(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm h){ InMpi g("MPI_Scatter"); return scatterx(sb, nullptr, nullptr, sn, st, rb, rn, rt, root, h, "MPI_Scatter"); }
int MPI_Scatterv(const void *sb, const int *sn, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm h){ InMpi g("MPI_Scatterv"); return scatterx(sb, sn, sd, 0, st, rb, rn, rt, root, h, "MPI_Scatterv"); }
static int agx(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *rd, int rn1, MPI_Datatype rt, MPI_Comm h, const char *w){
  int l; Comm *c = cm(h, l, w); int sz = (int)c->wr.size(); TypeP tr = ty(rt, w); Part p; p.needs.resize(sz); for (int i = 0; i < sz; i++) p.needs[i] = (rn ? rn[i] : rn1) > 0;
  if (sb == MPI_IN_PLACE) give(p, (char*)rb + tr->extent * (MPI_Aint)(rn ? rd[l] : l * rn1), rn ? rn[l] : rn1, tr, w);
  else { TypeP ts = ty(st, w); for (int i = 0; i < sz; i++) alias(sb, ts->extent * (size_t)sn, (char*)rb + tr->extent * (MPI_Aint)(rn ? rd[i] : i * rn1), tr->extent * (size_t)(rn ? rn[i] : rn1), w); give(p, sb, sn, ts, w); }
  Coll *k = centry(c, l, C_ALLGATHER, std::move(p)); cwait(k, l, w);
  for (int i = 0; i < sz; i++) if (k->p[i].arrived) take(k, l, i, 0, (char*)rb + tr->extent * (MPI_Aint)(rn ? rd[i] : i * rn1), rn ? rn[i] : rn1, tr);
  coll_finish(k, l); return 0; }
int MPI_Allgather(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm h){ InMpi g("MPI_Allgather"); return agx(sb, sn, st, rb, nullptr, nullptr, rn, rt, h, "MPI_Allgather"); }
int MPI_Allgatherv(const void *sb, int sn, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm h){ InMpi g("MPI_Allgatherv"); return agx(sb, sn, st, rb, rn, rd, 0, rt, h, "MPI_Allgatherv"); }
static int a2ax(const void *sb, const int *sn, const int *sd, int sn1, MPI_Datatype st, void *rb, const int *rn, const int *rd, int rn1, MPI_Datatype rt, MPI_Comm h, const char *w, MPI_Request *q){
  int l; Comm *c = cm(h, l, w); int sz = (int)c->wr.size(); TypeP tr = ty(rt, w); bool inpl = sb == MPI_IN_PLACE; TypeP ts = inpl ? tr : ty(st, w); Part p; p.needs.resize(sz);
  std::vector<int> SN(sz), SD(sz), RN(sz), RD(sz);
  for (int i = 0; i < sz; i++) { RN[i] = rn ? rn[i] : rn1; RD[i] = rn ? rd[i] : i * rn1; SN[i] = inpl ? RN[i] : sn ? sn[i] : sn1; SD[i] = inpl ? RD[i] : sn ? sd[i] : i * sn1; p.needs[i] = RN[i] > 0; if (RN[i] < 0 || SN[i] < 0) violation("mpi-misuse", "%s with a negative count", w); }
  const void *S = inpl ? rb : sb;
  if (!inpl) for (int i = 0; i < sz; i++) for (int j = 0; j < sz; j++) alias((const char*)S + ts->extent * (MPI_Aint)SD[i], ts->extent * (size_t)SN[i], (char*)rb + tr->extent * (MPI_Aint)RD[j], tr->extent * (size_t)RN[j], w);
  for (int i = 0; i < sz; i++) for (int j = i + 1; j < sz; j++) if (overlap((char*)rb + tr->extent * (MPI_Aint)RD[i], tr->extent * (size_t)RN[i], (char*)rb + tr->extent * (MPI_Aint)RD[j], tr->extent * (size_t)RN[j])) violation("mpi-alias", "receive areas of %s overlap", w);
  auto mk = [=](Part &pp){ for (int i = 0; i < sz; i++) give(pp, (const char*)S + ts->extent * (MPI_Aint)SD[i], SN[i], ts, w); };
  if (!q) { mk(p); Coll *k = centry(c, l, C_ALLTOALL, std::move(p)); cwait(k, l, w);
    for (int i = 0; i < sz; i++) if (k->p[i].arrived) take(k, l, i, l, (char*)rb + tr->extent * (MPI_Aint)RD[i], RN[i], tr);
    coll_finish(k, l); return 0; }
  int mode = (int)sdec(4, 0.8);
  { Part tmp; mk(tmp); }
  if (mode & 1) p.snapped = false; else mk(p);
  auto saved = std::make_shared<std::vector<std::vector<u8>>>();
  if (mode & 2) for (int i = 0; i < sz; i++) { saved->emplace_back(); void *b = (char*)rb + tr->extent * (MPI_Aint)RD[i]; pack(b, RN[i], *tr, saved->back(), nullptr, w); std::vector<u8> junk(saved->back().size(), 0x5A); unpack(b, RN[i], *tr, junk.data(), junk.size(), w); }
  Coll *k = centry(c, l, C_ALLTOALL, std::move(p)); k->p[l].snap = [k, l, mk]{ mk(k->p[l]); };
  Req *r = newreq(3, q); r->active = true; r->coll = k; r->me = l; r->c = c; r->mode = (int)sdec(2, 0.5); R->nlate++;
  collfin[r] = [=]{ csnap(k->p[l]); for (int i = 0; i < sz; i++) if (k->p[i].arrived) take(k, l, i, l, (char*)rb + tr->extent * (MPI_Aint)RD[i], RN[i], tr); coll_finish(k, l); };
  return 0; }
int MPI_Alltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm h){ InMpi g("MPI_Alltoall"); return a2ax(sb, nullptr, nullptr, sn, st, rb, nullptr, nullptr, rn, rt, h, "MPI_Alltoall", nullptr); }
int MPI_Alltoallv(const void *sb, const int *sn, const int *sd, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm h){ InMpi g("MPI_Alltoallv"); return a2ax(sb, sn, sd, 0, st, rb, rn, rd, 0, rt, h, "MPI_Alltoallv", nullptr); }
int MPI_Ialltoallv(const void *sb, const int *sn, const int *sd, MPI_Datatype st, void *rb, const int *rn, const int *rd, MPI_Datatype rt, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Ialltoallv"); return a2ax(sb, sn, sd, 0, st, rb, rn, rd, 0, rt, h, "MPI_Ialltoallv", q); }
int MPI_Ialltoall(const void *sb, int sn, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Ialltoall"); return a2ax(sb, nullptr, nullptr, sn, st, rb, nullptr, nullptr, rn, rt, h, "MPI_Ialltoall", q); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm h){ InMpi g("MPI_Reduce"); return redcoll(C_REDUCE, s, r, n, t, op, root, h, "MPI_Reduce"); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h){ InMpi g("MPI_Allreduce"); return redcoll(C_ALLREDUCE, s, r, n, t, op, 0, h, "MPI_Allreduce"); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h, MPI_Request *q){ InMpi g("MPI_Iallreduce"); return redcoll(C_ALLREDUCE, s, r, n, t, op, 0, h, "MPI_Iallreduce", q); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h){ InMpi g("MPI_Scan"); return redcoll(C_SCAN, s, r, n, t, op, 0, h, "MPI_Scan"); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h){ InMpi g("MPI_Exscan"); return redcoll(C_EXSCAN, s, r, n, t, op, 0, h, "MPI_Exscan"); }
int MPI_Op_create(MPI_User_function *f, int c, MPI_Op *o){ InMpi g("MPI_Op_create"); Rank &k = rk[me()]; k.ops.push_back(Op{f, c, true}); *o = 1000 + (int)k.ops.size() - 1; return 0; }
int MPI_Op_free(MPI_Op *o){ InMpi g("MPI_Op_free"); opx(*o, "MPI_Op_free"); rk[me()].ops[*o - 1000].live = false; *o = MPI_OP_NULL; return 0; }

// ---------------------------------------------------------------- environment, communicators, types
static int doinit(int level){ Rank &k = rk[me()]; if (k.inited) violation("mpi-misuse", "MPI_Init called twice"); ensure_world(); k.inited = true; k.level = level; k.main = cur; k.comms.clear(); k.clr.clear(); k.comms.push_back(nullptr); k.clr.push_back(0); addcomm(me(), world, me()); Comm *s = mkcomm({me()}); addcomm(me(), s, 0); return 0; }
int MPI_Init(int *, char ***){ InMpi g("MPI_Init", false); return doinit(sim_knobs.thread_level < 0 ? 0 : 0); }
int MPI_Init_thread(int *, char ***, int req, int *prov){ InMpi g("MPI_Init_thread", false); int l = std::min(req, sim_knobs.thread_level); *prov = l; return doinit(l); }
int MPI_Initialized(int *f){ *f = rk[me()].inited; return 0; } int MPI_Finalized(int *f){ *f = rk[me()].finalized; return 0; }
int MPI_Query_thread(int *l){ *l = rk[me()].level; return 0; } int MPI_Is_thread_main(int *f){ *f = cur == rk[me()].main; return 0; }
int MPI_Finalize(void){ { InMpi g("MPI_Finalize"); int l; Comm *c = cm(MPI_COMM_WORLD, l, "MPI_Finalize"); Part p; Coll *k = centry(c, l, C_BARRIER, std::move(p)); cwait(k, l, "MPI_Finalize"); coll_finish(k, l); } rk[me()].finalized = true; return 0; }
int MPI_Abort(MPI_Comm, int code){ violation("process-exit", "MPI_Abort(%d) called", code); }
int MPI_Comm_rank(MPI_Comm h, int *r){ int l; cm(h, l, "MPI_Comm_rank"); *r = l; return 0; }
int MPI_Comm_size(MPI_Comm h, int *n){ int l; *n = (int)cm(h, l, "MPI_Comm_size")->wr.size(); return 0; }
int MPI_Comm_dup(MPI_Comm h, MPI_Comm *o){ InMpi g("MPI_Comm_dup"); int l; Comm *c = cm(h, l, "MPI_Comm_dup"); Part p; Coll *k = centry(c, l, C_DUP, std::move(p)); cwait(k, l, "MPI_Comm_dup"); if (!k->made.count(0)) k->made[0] = mkcomm(c->wr); Comm *n = k->made[0]; coll_finish(k, l); *o = addcomm(me(), n, l); return 0; }
int MPI_Comm_split(MPI_Comm h, int color, int key, MPI_Comm *o){ InMpi g("MPI_Comm_split"); int l; Comm *c = cm(h, l, "MPI_Comm_split"); Part p; p.color = color; p.key = key; Coll *k = centry(c, l, C_SPLIT, std::move(p)); cwait(k, l, "MPI_Comm_split");
  if (color == MPI_UNDEFINED) { *o = MPI_COMM_NULL; coll_finish(k, l); return 0; }
  std::vector<std::pair<int,int>> v; for (size_t i = 0; i < k->p.size(); i++) if (k->p[i].color == color) v.push_back({k->p[i].key, (int)i}); std::sort(v.begin(), v.end());
  int nl = 0; std::vector<int> w; for (auto &x : v) { if (x.second == l) nl = (int)w.size(); w.push_back(c->wr[x.second]); }
  if (!k->made.count(color)) k->made[color] = mkcomm(w); Comm *n = k->made[color]; coll_finish(k, l); *o = addcomm(me(), n, nl); return 0; }
int MPI_Comm_free(MPI_Comm *h){ InMpi g("MPI_Comm_free"); int l; Comm *c = cm(*h, l, "MPI_Comm_free"); if (*h <= 2) violation("mpi-misuse", "MPI_Comm_free on a predefined communicator");
  for (auto r : rk[me()].reqs) if (r && r->active && r->c == c) violation("mpi-leak", "communicator freed while a request is pending on it");
  rk[me()].comms[*h] = nullptr; *h = MPI_COMM_NULL; return 0; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r){ int l, m; Comm *x = cm(a, l, "MPI_Comm_compare"), *y = cm(b, m, "MPI_Comm_compare"); if (x == y) *r = MPI_IDENT; else if (x->wr == y->wr) *r = MPI_CONGRUENT; else { auto p = x->wr, q = y->wr; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL; } return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return f; } MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; } MPI_Datatype MPI_Type_f2c(MPI_Fint f){ return f; } MPI_Fint MPI_Type_c2f(MPI_Datatype t){ return t; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler){ return 0; } int MPI_Errhandler_set(MPI_Comm, MPI_Errhandler){ return 0; }
static int addtype(TypeP t, MPI_Datatype *o){ rk[me()].types.push_back(t); *o = 1000 + (int)rk[me()].types.size() - 1; return 0; }
static void segadd(Type &t, MPI_Aint off, const Seg &g){ if (!t.map.empty()) { Seg &b = t.map.back(); if (b.basic == g.basic && b.off + (MPI_Aint)(b.n * bsize[b.basic]) == off) { b.n += g.n; return; } } t.map.push_back(Seg{off, g.basic, g.n}); }
static void tfin(Type &t, MPI_Aint lb, MPI_Aint ub){ t.lb = lb; t.extent = ub - lb; t.committed = false; }
static TypeP build(int n, const int *bl, const MPI_Aint *d, const std::vector<TypeP> &ts){ auto t = std::make_shared<Type>(); t->size = 0; bool any = false; MPI_Aint lb = 0, ub = 0; size_t al = 1;
  for (int i = 0; i < n; i++) for (int j = 0; j < bl[i]; j++) { MPI_Aint o = d[i] + j * ts[i]->extent; for (auto &g : ts[i]->map) { segadd(*t, o + g.off, g); al = std::max(al, std::min<size_t>(bsize[g.basic], 8)); } t->size += ts[i]->size; MPI_Aint a = o + ts[i]->lb, b = a + ts[i]->extent; if (!any || a < lb) lb = a; if (!any || b > ub) ub = b; any = true; }
  if (any && (ub - lb) % (MPI_Aint)al) ub += al - (ub - lb) % al;
  tfin(*t, lb, ub); return t; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o){ InMpi g("MPI_Type_contiguous"); TypeP b = ty(t, "MPI_Type_contiguous", false); MPI_Aint z = 0; return addtype(build(1, &n, &z, {b}), o); }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype t, MPI_Datatype *o){ InMpi g("MPI_Type_vector"); TypeP b = ty(t, "MPI_Type_vector", false); std::vector<int> B(n, bl); std::vector<MPI_Aint> D(n); for (int i = 0; i < n; i++) D[i] = i * st * b->extent; return addtype(build(n, B.data(), D.data(), std::vector<TypeP>(n, b)), o); }
int MPI_Type_create_hindexed(int n, const int *bl, const MPI_Aint *d, MPI_Datatype t, MPI_Datatype *o){ InMpi g("MPI_Type_create_hindexed"); TypeP b = ty(t, "MPI_Type_create_hindexed", false); return addtype(build(n, bl, d, std::vector<TypeP>(n, b)), o); }
int MPI_Type_indexed(int n, const int *bl, const int *d, MPI_Datatype t, MPI_Datatype *o){ InMpi g("MPI_Type_indexed"); TypeP b = ty(t, "MPI_Type_indexed", false); std::vector<MPI_Aint> D(n); for (int i = 0; i < n; i++) D[i] = d[i] * b->extent; return addtype(build(n, bl, D.data(), std::vector<TypeP>(n, b)), o); }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o){ InMpi g("MPI_Type_create_struct"); std::vector<TypeP> v; for (int i = 0; i < n; i++) v.push_back(ty(t[i], "MPI_Type_create_struct", false)); return addtype(build(n, bl, d, v), o); }
int MPI_Type_create_resized(MPI_Datatype t, MPI_Aint lb, MPI_Aint ex, MPI_Datatype *o){ InMpi g("MPI_Type_create_resized"); TypeP b = ty(t, "MPI_Type_create_resized", false); auto n = std::make_shared<Type>(*b); n->lb = lb; n->extent = ex; n->committed = false; return addtype(n, o); }
int MPI_Type_dup(MPI_Datatype t, MPI_Datatype *o){ InMpi g("MPI_Type_dup"); TypeP b = ty(t, "MPI_Type_dup", false); return addtype(std::make_shared<Type>(*b), o); }
int MPI_Type_commit(MPI_Datatype *t){ InMpi g("MPI_Type_commit"); TypeP b = ty(*t, "MPI_Type_commit", false); b->committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *t){ InMpi g("MPI_Type_free"); ty(*t, "MPI_Type_free", false); if (*t < 1000) violation("mpi-misuse", "MPI_Type_free on a basic datatype"); rk[me()].types[*t - 1000] = nullptr; *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *n){ *n = (int)ty(t, "MPI_Type_size", false)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex){ TypeP b = ty(t, "MPI_Type_get_extent", false); *lb = b->lb; *ex = b->extent; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a){ *a = (MPI_Aint)p; return 0; }
double MPI_Wtime(void){ g_clock_us += 1 + sdec(1000, 0.3) * 1000; return g_clock_us * 1e-6; } double MPI_Wtick(void){ return 1e-6; }
int MPI_Get_processor_name(char *n, int *l){ *l = snprintf(n, 64, "node%d", me()); return 0; }
int MPI_Error_string(int c, char *s, int *l){ *l = snprintf(s, 64, "error %d", c); return 0; }
}
void mpi_rank_finish(int r){
  Rank &k = rk[r]; if (!k.inited || !sim_knobs.mpi_strict) return;
  for (auto q : k.reqs) if (q && (q->active || q->persistent)) violation("mpi-leak", "rank %d ends with a %s request that was never completed or freed", r, q->kind == 1 ? "send" : q->kind == 2 ? "receive" : "collective");
  for (size_t i = 3; i < k.comms.size(); i++) if (k.comms[i]) violation("mpi-leak", "rank %d ends with a communicator that was never freed", r);
  for (auto &t : k.types) if (t) violation("mpi-leak", "rank %d ends with a datatype that was never freed", r);
  for (auto &o : k.ops) if (o.live) violation("mpi-leak", "rank %d ends with a reduction operation that was never freed", r);
}
void mpi_final_check(){
  for (auto &c : chans) if (!c.second.empty()) { Msg *m = c.second.front(); violation("mpi-leak", "a message from process %d to process %d tag %d was never received", m->src, m->dst, m->tag); }
  for (auto world : allcomms) for (size_t i = 0; i < world->arrived.size(); i++) if (!world->arrived[i].empty()) { Msg *m = world->arrived[i].front(); violation("mpi-leak", "a message from process %d to process %d tag %d was never received", m->src, m->dst, m->tag); }
}
std::string mpi_describe(){
  std::string s; char b[160];
  for (auto &c : chans) { snprintf(b, sizeof b, "\n  in flight: %zu messages %d->%d", c.second.size(), c.first.second.first, c.first.second.second); s += b; }
  return s;
}
