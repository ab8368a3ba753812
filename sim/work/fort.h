// The Fortran interface in place of the C one. Every routine is called the way a compiled Fortran program calls it: all arguments by reference,
// strings without a final zero and with their length at the end, streams as descriptors, absent arrays as the documented references, arrays
// returned as indices. Compiling a workload with this file makes it check the Fortran interface (C27).
#pragma once
#include "sim.h"
#include "mpi.h"
#include <stdio.h>
#include <string.h>
#include <string>
#include <ptscotch.h>
extern "C" int __wrap_fileno(FILE *);
typedef SCOTCH_Num Num_;
template <class T, class U> static inline const void *FA(T *p, U *q) { return p != nullptr ? (const void*)p : (const void*)q; }
template <class T> static inline T *FD(T *p, T &d) { return p != nullptr ? p : &d; }
// Descriptor of a stream. What the stream holds is brought to the descriptor first; -1 stands for no stream.
struct FH { int fd; explicit FH(FILE *f) { if (f == nullptr) fd = -1; else { fflush(f); fd = __wrap_fileno(f); } } };
// A string as Fortran has it: no final zero; what lies behind is other data
struct FSt { char *p; size_t n; explicit FSt(const char *s) { n = s != nullptr ? strlen(s) : 0; p = (char*)sim_alloc(n + 1); memcpy(p, s, n); p[n] = 'Z'; } ~FSt() { sim_free(p); } };
extern "C" void scotchfstratgraphbipart_(...) __attribute__((weak));
static inline int F_stratGraphBipart(SCOTCH_Strat * a0, const char * a1) { FSt s1(a1); int o = (int)0x5a5a5a5a; scotchfstratgraphbipart_(a0, s1.p, &o, (size_t)s1.n); return o; }
#define SCOTCH_stratGraphBipart F_stratGraphBipart
extern "C" void scotchfarchbuild_(...) __attribute__((weak));
static inline int F_archBuild(SCOTCH_Arch * a0, const SCOTCH_Graph * a1, SCOTCH_Num a2, const SCOTCH_Num * a3, const SCOTCH_Strat * a4) { int o = (int)0x5a5a5a5a; scotchfarchbuild_(a0, a1, &a2, a3, a4, &o); return o; }
#define SCOTCH_archBuild F_archBuild
extern "C" void scotchfarchdomnum_(...) __attribute__((weak));
static inline SCOTCH_Num F_archDomNum(SCOTCH_Arch * a0, const SCOTCH_ArchDom * a1) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfarchdomnum_(a0, a1, &o); return o; }
#define SCOTCH_archDomNum F_archDomNum
extern "C" void scotchfarchdomterm_(...) __attribute__((weak));
static inline int F_archDomTerm(SCOTCH_Arch * a0, SCOTCH_ArchDom * a1, SCOTCH_Num a2) { int o = (int)0x5a5a5a5a; scotchfarchdomterm_(a0, a1, &a2, &o); return o; }
#define SCOTCH_archDomTerm F_archDomTerm
extern "C" void scotchfarchdomsize_(...) __attribute__((weak));
static inline SCOTCH_Num F_archDomSize(SCOTCH_Arch * a0, const SCOTCH_ArchDom * a1) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfarchdomsize_(a0, a1, &o); return o; }
#define SCOTCH_archDomSize F_archDomSize
extern "C" void scotchfarchdomwght_(...) __attribute__((weak));
static inline SCOTCH_Num F_archDomWght(SCOTCH_Arch * a0, const SCOTCH_ArchDom * a1) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfarchdomwght_(a0, a1, &o); return o; }
#define SCOTCH_archDomWght F_archDomWght
extern "C" void scotchfarchdomdist_(...) __attribute__((weak));
static inline SCOTCH_Num F_archDomDist(SCOTCH_Arch * a0, const SCOTCH_ArchDom * a1, const SCOTCH_ArchDom * a2) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfarchdomdist_(a0, a1, a2, &o); return o; }
#define SCOTCH_archDomDist F_archDomDist
extern "C" void scotchfarchdomfrst_(...) __attribute__((weak));
static inline int F_archDomFrst(SCOTCH_Arch * a0, SCOTCH_ArchDom * a1) { int o = (int)0x5a5a5a5a; scotchfarchdomfrst_(a0, a1, &o); return o; }
#define SCOTCH_archDomFrst F_archDomFrst
extern "C" void scotchfarchdombipart_(...) __attribute__((weak));
static inline int F_archDomBipart(SCOTCH_Arch * a0, const SCOTCH_ArchDom * a1, SCOTCH_ArchDom * a2, SCOTCH_ArchDom * a3) { int o = (int)0x5a5a5a5a; scotchfarchdombipart_(a0, a1, a2, a3, &o); return o; }
#define SCOTCH_archDomBipart F_archDomBipart
extern "C" void scotchfarchinit_(...) __attribute__((weak));
static inline int F_archInit(SCOTCH_Arch * a0) { int o = (int)0x5a5a5a5a; scotchfarchinit_(a0, &o); return o; }
#define SCOTCH_archInit F_archInit
extern "C" void scotchfarchexit_(...) __attribute__((weak));
static inline void F_archExit(SCOTCH_Arch * a0) {  scotchfarchexit_(a0); return; }
#define SCOTCH_archExit F_archExit
extern "C" void scotchfarchsizeof_(...) __attribute__((weak));
static inline int F_archSizeof() { int o = (int)0x5a5a5a5a; scotchfarchsizeof_(&o); return o; }
#define SCOTCH_archSizeof F_archSizeof
extern "C" void scotchfarchdomsizeof_(...) __attribute__((weak));
static inline int F_archDomSizeof() { int o = (int)0x5a5a5a5a; scotchfarchdomsizeof_(&o); return o; }
#define SCOTCH_archDomSizeof F_archDomSizeof
extern "C" void scotchfarchload_(...) __attribute__((weak));
static inline int F_archLoad(SCOTCH_Arch * a0, FILE * a1) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfarchload_(a0, &h1.fd, &o); return o; }
#define SCOTCH_archLoad F_archLoad
extern "C" void scotchfarchsave_(...) __attribute__((weak));
static inline int F_archSave(const SCOTCH_Arch * a0, FILE * a1) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfarchsave_(a0, &h1.fd, &o); return o; }
#define SCOTCH_archSave F_archSave
extern "C" void scotchfarchsize_(...) __attribute__((weak));
static inline SCOTCH_Num F_archSize(const SCOTCH_Arch * a0) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfarchsize_(a0, &o); return o; }
#define SCOTCH_archSize F_archSize
extern "C" void scotchfarchvar_(...) __attribute__((weak));
static inline int F_archVar(const SCOTCH_Arch * a0) { int o = (int)0x5a5a5a5a; scotchfarchvar_(a0, &o); return o; }
#define SCOTCH_archVar F_archVar
extern "C" void scotchfarchcmplt_(...) __attribute__((weak));
static inline int F_archCmplt(SCOTCH_Arch * a0, SCOTCH_Num a1) { int o = (int)0x5a5a5a5a; scotchfarchcmplt_(a0, &a1, &o); return o; }
#define SCOTCH_archCmplt F_archCmplt
extern "C" void scotchfarchcmpltw_(...) __attribute__((weak));
static inline int F_archCmpltw(SCOTCH_Arch * a0, SCOTCH_Num a1, const SCOTCH_Num * a2) { int o = (int)0x5a5a5a5a; scotchfarchcmpltw_(a0, &a1, a2, &o); return o; }
#define SCOTCH_archCmpltw F_archCmpltw
extern "C" void scotchfarchhcub_(...) __attribute__((weak));
static inline int F_archHcub(SCOTCH_Arch * a0, SCOTCH_Num a1) { int o = (int)0x5a5a5a5a; scotchfarchhcub_(a0, &a1, &o); return o; }
#define SCOTCH_archHcub F_archHcub
extern "C" void scotchfarchmesh2_(...) __attribute__((weak));
static inline int F_archMesh2(SCOTCH_Arch * a0, SCOTCH_Num a1, SCOTCH_Num a2) { int o = (int)0x5a5a5a5a; scotchfarchmesh2_(a0, &a1, &a2, &o); return o; }
#define SCOTCH_archMesh2 F_archMesh2
extern "C" void scotchfarchmesh3_(...) __attribute__((weak));
static inline int F_archMesh3(SCOTCH_Arch * a0, SCOTCH_Num a1, SCOTCH_Num a2, SCOTCH_Num a3) { int o = (int)0x5a5a5a5a; scotchfarchmesh3_(a0, &a1, &a2, &a3, &o); return o; }
#define SCOTCH_archMesh3 F_archMesh3
extern "C" void scotchfarchmeshx_(...) __attribute__((weak));
static inline int F_archMeshX(SCOTCH_Arch * a0, SCOTCH_Num a1, const SCOTCH_Num * a2) { int o = (int)0x5a5a5a5a; scotchfarchmeshx_(a0, &a1, a2, &o); return o; }
#define SCOTCH_archMeshX F_archMeshX
extern "C" void scotchfarchsub_(...) __attribute__((weak));
static inline int F_archSub(SCOTCH_Arch * a0, SCOTCH_Arch * a1, SCOTCH_Num a2, const SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfarchsub_(a0, a1, &a2, a3, &o); return o; }
#define SCOTCH_archSub F_archSub
extern "C" void scotchfarchtleaf_(...) __attribute__((weak));
static inline int F_archTleaf(SCOTCH_Arch * a0, SCOTCH_Num a1, const SCOTCH_Num * a2, const SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfarchtleaf_(a0, &a1, a2, a3, &o); return o; }
#define SCOTCH_archTleaf F_archTleaf
extern "C" void scotchfarchtorus2_(...) __attribute__((weak));
static inline int F_archTorus2(SCOTCH_Arch * a0, SCOTCH_Num a1, SCOTCH_Num a2) { int o = (int)0x5a5a5a5a; scotchfarchtorus2_(a0, &a1, &a2, &o); return o; }
#define SCOTCH_archTorus2 F_archTorus2
extern "C" void scotchfarchtorus3_(...) __attribute__((weak));
static inline int F_archTorus3(SCOTCH_Arch * a0, SCOTCH_Num a1, SCOTCH_Num a2, SCOTCH_Num a3) { int o = (int)0x5a5a5a5a; scotchfarchtorus3_(a0, &a1, &a2, &a3, &o); return o; }
#define SCOTCH_archTorus3 F_archTorus3
extern "C" void scotchfarchtorusx_(...) __attribute__((weak));
static inline int F_archTorusX(SCOTCH_Arch * a0, SCOTCH_Num a1, const SCOTCH_Num * a2) { int o = (int)0x5a5a5a5a; scotchfarchtorusx_(a0, &a1, a2, &o); return o; }
#define SCOTCH_archTorusX F_archTorusX
extern "C" void scotchfarchvcmplt_(...) __attribute__((weak));
static inline int F_archVcmplt(SCOTCH_Arch * a0) { int o = (int)0x5a5a5a5a; scotchfarchvcmplt_(a0, &o); return o; }
#define SCOTCH_archVcmplt F_archVcmplt
extern "C" void scotchfarchvhcub_(...) __attribute__((weak));
static inline int F_archVhcub(SCOTCH_Arch * a0) { int o = (int)0x5a5a5a5a; scotchfarchvhcub_(a0, &o); return o; }
#define SCOTCH_archVhcub F_archVhcub
extern "C" void scotchfmemcur_(...) __attribute__((weak));
static inline SCOTCH_Idx F_memCur() { SCOTCH_Idx o = (SCOTCH_Idx)0x5a5a5a5a; scotchfmemcur_(&o); return o; }
#define SCOTCH_memCur F_memCur
extern "C" void scotchfmemmax_(...) __attribute__((weak));
static inline SCOTCH_Idx F_memMax() { SCOTCH_Idx o = (SCOTCH_Idx)0x5a5a5a5a; scotchfmemmax_(&o); return o; }
#define SCOTCH_memMax F_memMax
extern "C" void scotchfcontextbinddgraph_(...) __attribute__((weak));
static inline int F_contextBindDgraph(SCOTCH_Context * a0, const SCOTCH_Dgraph * a1, SCOTCH_Dgraph * a2) { int o = (int)0x5a5a5a5a; scotchfcontextbinddgraph_(a0, a1, a2, &o); return o; }
#define SCOTCH_contextBindDgraph F_contextBindDgraph
extern "C" void scotchfcontextinit_(...) __attribute__((weak));
static inline int F_contextInit(SCOTCH_Context * a0) { int o = (int)0x5a5a5a5a; scotchfcontextinit_(a0, &o); return o; }
#define SCOTCH_contextInit F_contextInit
extern "C" void scotchfcontextexit_(...) __attribute__((weak));
static inline void F_contextExit(SCOTCH_Context * a0) {  scotchfcontextexit_(a0); return; }
#define SCOTCH_contextExit F_contextExit
extern "C" void scotchfcontextsizeof_(...) __attribute__((weak));
static inline int F_contextSizeof() { int o = (int)0x5a5a5a5a; scotchfcontextsizeof_(&o); return o; }
#define SCOTCH_contextSizeof F_contextSizeof
extern "C" void scotchfcontextrandomclone_(...) __attribute__((weak));
static inline int F_contextRandomClone(SCOTCH_Context * a0) { int o = (int)0x5a5a5a5a; scotchfcontextrandomclone_(a0, &o); return o; }
#define SCOTCH_contextRandomClone F_contextRandomClone
extern "C" void scotchfcontextrandomreset_(...) __attribute__((weak));
static inline void F_contextRandomReset(SCOTCH_Context * a0) {  scotchfcontextrandomreset_(a0); return; }
#define SCOTCH_contextRandomReset F_contextRandomReset
extern "C" void scotchfcontextrandomseed_(...) __attribute__((weak));
static inline void F_contextRandomSeed(SCOTCH_Context * a0, SCOTCH_Num a1) {  scotchfcontextrandomseed_(a0, &a1); return; }
#define SCOTCH_contextRandomSeed F_contextRandomSeed
extern "C" void scotchfcontextthreadimport1_(...) __attribute__((weak));
static inline int F_contextThreadImport1(SCOTCH_Context * a0, int a1) { int o = (int)0x5a5a5a5a; scotchfcontextthreadimport1_(a0, &a1, &o); return o; }
#define SCOTCH_contextThreadImport1 F_contextThreadImport1
extern "C" void scotchfcontextthreadimport2_(...) __attribute__((weak));
static inline int F_contextThreadImport2(SCOTCH_Context * a0, int a1) { int o = (int)0x5a5a5a5a; scotchfcontextthreadimport2_(a0, &a1, &o); return o; }
#define SCOTCH_contextThreadImport2 F_contextThreadImport2
extern "C" void scotchfcontextthreadspawn_(...) __attribute__((weak));
static inline int F_contextThreadSpawn(SCOTCH_Context * a0, int a1, const int * a2) { int o = (int)0x5a5a5a5a; scotchfcontextthreadspawn_(a0, &a1, a2, &o); return o; }
#define SCOTCH_contextThreadSpawn F_contextThreadSpawn
extern "C" void scotchfcontextoptiongetnum_(...) __attribute__((weak));
static inline int F_contextOptionGetNum(SCOTCH_Context * a0, int a1, SCOTCH_Num * a2) { int o = (int)0x5a5a5a5a; scotchfcontextoptiongetnum_(a0, &a1, a2, &o); return o; }
#define SCOTCH_contextOptionGetNum F_contextOptionGetNum
extern "C" void scotchfcontextoptionsetnum_(...) __attribute__((weak));
static inline int F_contextOptionSetNum(SCOTCH_Context * a0, int a1, SCOTCH_Num a2) { int o = (int)0x5a5a5a5a; scotchfcontextoptionsetnum_(a0, &a1, &a2, &o); return o; }
#define SCOTCH_contextOptionSetNum F_contextOptionSetNum
extern "C" void scotchfcontextbindgraph_(...) __attribute__((weak));
static inline int F_contextBindGraph(SCOTCH_Context * a0, const SCOTCH_Graph * a1, SCOTCH_Graph * a2) { int o = (int)0x5a5a5a5a; scotchfcontextbindgraph_(a0, a1, a2, &o); return o; }
#define SCOTCH_contextBindGraph F_contextBindGraph
extern "C" void scotchfcontextbindmesh_(...) __attribute__((weak));
static inline int F_contextBindMesh(SCOTCH_Context * a0, const SCOTCH_Mesh * a1, SCOTCH_Mesh * a2) { int o = (int)0x5a5a5a5a; scotchfcontextbindmesh_(a0, a1, a2, &o); return o; }
#define SCOTCH_contextBindMesh F_contextBindMesh
extern "C" void scotchfdgraphband_(...) __attribute__((weak));
static inline int F_dgraphBand(SCOTCH_Dgraph * a0, SCOTCH_Num a1, SCOTCH_Num * a2, SCOTCH_Num a3, SCOTCH_Dgraph * a4) { int o = (int)0x5a5a5a5a; scotchfdgraphband_(a0, &a1, a2, &a3, a4, &o); return o; }
#define SCOTCH_dgraphBand F_dgraphBand
extern "C" void scotchfdgraphbuildgrid3d_(...) __attribute__((weak));
static inline int F_dgraphBuildGrid3D(SCOTCH_Dgraph * a0, SCOTCH_Num a1, SCOTCH_Num a2, SCOTCH_Num a3, SCOTCH_Num a4, SCOTCH_Num a5, SCOTCH_Num a6) { int o = (int)0x5a5a5a5a; scotchfdgraphbuildgrid3d_(a0, &a1, &a2, &a3, &a4, &a5, &a6, &o); return o; }
#define SCOTCH_dgraphBuildGrid3D F_dgraphBuildGrid3D
extern "C" void scotchfdgraphcheck_(...) __attribute__((weak));
static inline int F_dgraphCheck(const SCOTCH_Dgraph * a0) { int o = (int)0x5a5a5a5a; scotchfdgraphcheck_(a0, &o); return o; }
#define SCOTCH_dgraphCheck F_dgraphCheck
extern "C" void scotchfdgraphcoarsenvertlocmax_(...) __attribute__((weak));
static inline SCOTCH_Num F_dgraphCoarsenVertLocMax(const SCOTCH_Dgraph * a0, SCOTCH_Num a1) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfdgraphcoarsenvertlocmax_(a0, &a1, &o); return o; }
#define SCOTCH_dgraphCoarsenVertLocMax F_dgraphCoarsenVertLocMax
extern "C" void scotchfdgraphcoarsen_(...) __attribute__((weak));
static inline int F_dgraphCoarsen(SCOTCH_Dgraph * a0, SCOTCH_Num a1, double a2, SCOTCH_Num a3, SCOTCH_Dgraph * a4, SCOTCH_Num * a5) { int o = (int)0x5a5a5a5a; scotchfdgraphcoarsen_(a0, &a1, &a2, &a3, a4, a5, &o); return o; }
#define SCOTCH_dgraphCoarsen F_dgraphCoarsen
extern "C" void scotchfdgraphinit_(...) __attribute__((weak));
static inline int F_dgraphInit(SCOTCH_Dgraph * a0, MPI_Comm a1) { MPI_Fint m1=MPI_Comm_c2f(a1); int o = (int)0x5a5a5a5a; scotchfdgraphinit_(a0, &m1, &o); return o; }
#define SCOTCH_dgraphInit F_dgraphInit
extern "C" void scotchfdgraphexit_(...) __attribute__((weak));
static inline void F_dgraphExit(SCOTCH_Dgraph * a0) {  scotchfdgraphexit_(a0); return; }
#define SCOTCH_dgraphExit F_dgraphExit
extern "C" void scotchfdgraphsizeof_(...) __attribute__((weak));
static inline int F_dgraphSizeof() { int o = (int)0x5a5a5a5a; scotchfdgraphsizeof_(&o); return o; }
#define SCOTCH_dgraphSizeof F_dgraphSizeof
extern "C" void scotchfdgraphsize_(...) __attribute__((weak));
static inline void F_dgraphSize(const SCOTCH_Dgraph * a0, SCOTCH_Num * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, SCOTCH_Num * a4) { Num_ d[6];  scotchfdgraphsize_(a0, FD(a1, d[1]), FD(a2, d[2]), FD(a3, d[3]), FD(a4, d[4])); return; }
#define SCOTCH_dgraphSize F_dgraphSize
extern "C" void scotchfdgraphgather_(...) __attribute__((weak));
static inline int F_dgraphGather(const SCOTCH_Dgraph * a0, SCOTCH_Graph * a1) { int o = (int)0x5a5a5a5a; scotchfdgraphgather_(a0, FA(a1, a0), &o); return o; }
#define SCOTCH_dgraphGather F_dgraphGather
extern "C" void scotchfdgraphghst_(...) __attribute__((weak));
static inline int F_dgraphGhst(SCOTCH_Dgraph * a0) { int o = (int)0x5a5a5a5a; scotchfdgraphghst_(a0, &o); return o; }
#define SCOTCH_dgraphGhst F_dgraphGhst
extern "C" void scotchfdgraphhalo_(...) __attribute__((weak));
static inline int F_dgraphHalo(SCOTCH_Dgraph * a0, void * a1, MPI_Datatype a2) { MPI_Fint m2=MPI_Type_c2f(a2); int o = (int)0x5a5a5a5a; scotchfdgraphhalo_(a0, a1, &m2, &o); return o; }
#define SCOTCH_dgraphHalo F_dgraphHalo
extern "C" void scotchfdgraphhaloasync_(...) __attribute__((weak));
static inline int F_dgraphHaloAsync(SCOTCH_Dgraph * a0, void * a1, MPI_Datatype a2, SCOTCH_DgraphHaloReq * a3) { MPI_Fint m2=MPI_Type_c2f(a2); int o = (int)0x5a5a5a5a; scotchfdgraphhaloasync_(a0, a1, &m2, a3, &o); return o; }
#define SCOTCH_dgraphHaloAsync F_dgraphHaloAsync
extern "C" void scotchfdgraphhalowait_(...) __attribute__((weak));
static inline int F_dgraphHaloWait(SCOTCH_DgraphHaloReq * a0) { int o = (int)0x5a5a5a5a; scotchfdgraphhalowait_(a0, &o); return o; }
#define SCOTCH_dgraphHaloWait F_dgraphHaloWait
extern "C" void scotchfdgraphhaloreqsizeof_(...) __attribute__((weak));
static inline int F_dgraphHaloReqSizeof() { int o = (int)0x5a5a5a5a; scotchfdgraphhaloreqsizeof_(&o); return o; }
#define SCOTCH_dgraphHaloReqSizeof F_dgraphHaloReqSizeof
extern "C" void scotchfdgraphinducepart_(...) __attribute__((weak));
static inline int F_dgraphInducePart(SCOTCH_Dgraph * a0, const SCOTCH_Num * a1, SCOTCH_Num a2, SCOTCH_Num a3, SCOTCH_Dgraph * a4) { int o = (int)0x5a5a5a5a; scotchfdgraphinducepart_(a0, a1, &a2, &a3, a4, &o); return o; }
#define SCOTCH_dgraphInducePart F_dgraphInducePart
extern "C" void scotchfdgraphload_(...) __attribute__((weak));
static inline int F_dgraphLoad(SCOTCH_Dgraph * a0, FILE * a1, SCOTCH_Num a2, SCOTCH_Num a3) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfdgraphload_(a0, &h1.fd, &a2, &a3, &o); return o; }
#define SCOTCH_dgraphLoad F_dgraphLoad
extern "C" void scotchfdgraphsave_(...) __attribute__((weak));
static inline int F_dgraphSave(SCOTCH_Dgraph * a0, FILE * a1) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfdgraphsave_(a0, &h1.fd, &o); return o; }
#define SCOTCH_dgraphSave F_dgraphSave
extern "C" void scotchfdgraphmapinit_(...) __attribute__((weak));
static inline int F_dgraphMapInit(const SCOTCH_Dgraph * a0, SCOTCH_Dmapping * a1, const SCOTCH_Arch * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfdgraphmapinit_(a0, a1, a2, FA(a3, a0), &o); return o; }
#define SCOTCH_dgraphMapInit F_dgraphMapInit
extern "C" void scotchfdgraphmapexit_(...) __attribute__((weak));
static inline void F_dgraphMapExit(const SCOTCH_Dgraph * a0, SCOTCH_Dmapping * a1) {  scotchfdgraphmapexit_(a0, a1); return; }
#define SCOTCH_dgraphMapExit F_dgraphMapExit
extern "C" void scotchfdgraphmapsave_(...) __attribute__((weak));
static inline int F_dgraphMapSave(const SCOTCH_Dgraph * a0, const SCOTCH_Dmapping * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfdgraphmapsave_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_dgraphMapSave F_dgraphMapSave
extern "C" void scotchfdgraphmapcompute_(...) __attribute__((weak));
static inline int F_dgraphMapCompute(SCOTCH_Dgraph * a0, SCOTCH_Dmapping * a1, SCOTCH_Strat * a2) { int o = (int)0x5a5a5a5a; scotchfdgraphmapcompute_(a0, a1, a2, &o); return o; }
#define SCOTCH_dgraphMapCompute F_dgraphMapCompute
extern "C" void scotchfdgraphmap_(...) __attribute__((weak));
static inline int F_dgraphMap(SCOTCH_Dgraph * a0, const SCOTCH_Arch * a1, SCOTCH_Strat * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfdgraphmap_(a0, a1, a2, a3, &o); return o; }
#define SCOTCH_dgraphMap F_dgraphMap
extern "C" void scotchfdgraphpart_(...) __attribute__((weak));
static inline int F_dgraphPart(SCOTCH_Dgraph * a0, SCOTCH_Num a1, SCOTCH_Strat * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfdgraphpart_(a0, &a1, a2, a3, &o); return o; }
#define SCOTCH_dgraphPart F_dgraphPart
extern "C" void scotchfstratdgraphmap_(...) __attribute__((weak));
static inline int F_stratDgraphMap(SCOTCH_Strat * a0, const char * a1) { FSt s1(a1); int o = (int)0x5a5a5a5a; scotchfstratdgraphmap_(a0, s1.p, &o, (size_t)s1.n); return o; }
#define SCOTCH_stratDgraphMap F_stratDgraphMap
extern "C" void scotchfstratdgraphmapbuild_(...) __attribute__((weak));
static inline int F_stratDgraphMapBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, SCOTCH_Num a2, SCOTCH_Num a3, double a4) { int o = (int)0x5a5a5a5a; scotchfstratdgraphmapbuild_(a0, &a1, &a2, &a3, &a4, &o); return o; }
#define SCOTCH_stratDgraphMapBuild F_stratDgraphMapBuild
extern "C" void scotchfstratdgraphclusterbuild_(...) __attribute__((weak));
static inline int F_stratDgraphClusterBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, SCOTCH_Num a2, SCOTCH_Num a3, double a4, double a5) { int o = (int)0x5a5a5a5a; scotchfstratdgraphclusterbuild_(a0, &a1, &a2, &a3, &a4, &a5, &o); return o; }
#define SCOTCH_stratDgraphClusterBuild F_stratDgraphClusterBuild
extern "C" void scotchfdgraphmapstat_(...) __attribute__((weak));
static inline int F_dgraphMapStat(SCOTCH_Dgraph * a0, const SCOTCH_Dmapping * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, double * a6, double * a7, SCOTCH_Num * a8, SCOTCH_Num * a9, SCOTCH_Num * a10, SCOTCH_Num * a11, SCOTCH_Num * a12, SCOTCH_Num * a13, SCOTCH_Num * a14, SCOTCH_Num * a15) { Num_ d[280]; double e[20]; int o = (int)0x5a5a5a5a; scotchfdgraphmapstat_(a0, a1, FD(a2, d[2]), FD(a3, d[3]), FD(a4, d[4]), FD(a5, d[5]), FD(a6, e[6]), FD(a7, e[7]), FD(a8, d[8]), FD(a9, d[9]), FD(a10, d[10]), FD(a11, d[11]), (a12 != nullptr ? a12 : d + 20), FD(a13, d[13]), FD(a14, d[14]), FD(a15, d[15]), &o); return o; }
#define SCOTCH_dgraphMapStat F_dgraphMapStat
extern "C" void scotchfdgraphmapview_(...) __attribute__((weak));
static inline int F_dgraphMapView(SCOTCH_Dgraph * a0, const SCOTCH_Dmapping * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfdgraphmapview_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_dgraphMapView F_dgraphMapView
extern "C" void scotchfdgraphorderinit_(...) __attribute__((weak));
static inline int F_dgraphOrderInit(const SCOTCH_Dgraph * a0, SCOTCH_Dordering * a1) { int o = (int)0x5a5a5a5a; scotchfdgraphorderinit_(a0, a1, &o); return o; }
#define SCOTCH_dgraphOrderInit F_dgraphOrderInit
extern "C" void scotchfdgraphorderexit_(...) __attribute__((weak));
static inline void F_dgraphOrderExit(const SCOTCH_Dgraph * a0, SCOTCH_Dordering * a1) {  scotchfdgraphorderexit_(a0, a1); return; }
#define SCOTCH_dgraphOrderExit F_dgraphOrderExit
extern "C" void scotchfdgraphordersave_(...) __attribute__((weak));
static inline int F_dgraphOrderSave(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfdgraphordersave_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_dgraphOrderSave F_dgraphOrderSave
extern "C" void scotchfdgraphordercompute_(...) __attribute__((weak));
static inline int F_dgraphOrderCompute(SCOTCH_Dgraph * a0, SCOTCH_Dordering * a1, SCOTCH_Strat * a2) { int o = (int)0x5a5a5a5a; scotchfdgraphordercompute_(a0, a1, a2, &o); return o; }
#define SCOTCH_dgraphOrderCompute F_dgraphOrderCompute
extern "C" void scotchfdgraphordercomputelist_(...) __attribute__((weak));
static inline int F_dgraphOrderComputeList(SCOTCH_Dgraph * a0, SCOTCH_Dordering * a1, SCOTCH_Num a2, const SCOTCH_Num * a3, SCOTCH_Strat * a4) { int o = (int)0x5a5a5a5a; scotchfdgraphordercomputelist_(a0, a1, &a2, a3, a4, &o); return o; }
#define SCOTCH_dgraphOrderComputeList F_dgraphOrderComputeList
extern "C" void scotchfstratdgraphorder_(...) __attribute__((weak));
static inline int F_stratDgraphOrder(SCOTCH_Strat * a0, const char * a1) { FSt s1(a1); int o = (int)0x5a5a5a5a; scotchfstratdgraphorder_(a0, s1.p, &o, (size_t)s1.n); return o; }
#define SCOTCH_stratDgraphOrder F_stratDgraphOrder
extern "C" void scotchfstratdgraphorderbuild_(...) __attribute__((weak));
static inline int F_stratDgraphOrderBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, SCOTCH_Num a2, SCOTCH_Num a3, double a4) { int o = (int)0x5a5a5a5a; scotchfstratdgraphorderbuild_(a0, &a1, &a2, &a3, &a4, &o); return o; }
#define SCOTCH_stratDgraphOrderBuild F_stratDgraphOrderBuild
extern "C" void scotchfdgraphcorderinit_(...) __attribute__((weak));
static inline int F_dgraphCorderInit(const SCOTCH_Dgraph * a0, SCOTCH_Ordering * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfdgraphcorderinit_(a0, a1, FA(a2, a0), FA(a3, a0), FA(a4, a0), FA(a5, a0), FA(a6, a0), &o); return o; }
#define SCOTCH_dgraphCorderInit F_dgraphCorderInit
extern "C" void scotchfdgraphcorderexit_(...) __attribute__((weak));
static inline void F_dgraphCorderExit(const SCOTCH_Dgraph * a0, SCOTCH_Ordering * a1) {  scotchfdgraphcorderexit_(a0, a1); return; }
#define SCOTCH_dgraphCorderExit F_dgraphCorderExit
extern "C" void scotchfdgraphordergather_(...) __attribute__((weak));
static inline int F_dgraphOrderGather(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1, SCOTCH_Ordering * a2) { int o = (int)0x5a5a5a5a; scotchfdgraphordergather_(a0, a1, a2, &o); return o; }
#define SCOTCH_dgraphOrderGather F_dgraphOrderGather
extern "C" void scotchfdgraphordersaveblock_(...) __attribute__((weak));
static inline int F_dgraphOrderSaveBlock(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfdgraphordersaveblock_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_dgraphOrderSaveBlock F_dgraphOrderSaveBlock
extern "C" void scotchfdgraphordersavemap_(...) __attribute__((weak));
static inline int F_dgraphOrderSaveMap(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfdgraphordersavemap_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_dgraphOrderSaveMap F_dgraphOrderSaveMap
extern "C" void scotchfdgraphordersavetree_(...) __attribute__((weak));
static inline int F_dgraphOrderSaveTree(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfdgraphordersavetree_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_dgraphOrderSaveTree F_dgraphOrderSaveTree
extern "C" void scotchfdgraphorderperm_(...) __attribute__((weak));
static inline int F_dgraphOrderPerm(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1, SCOTCH_Num * a2) { int o = (int)0x5a5a5a5a; scotchfdgraphorderperm_(a0, a1, a2, &o); return o; }
#define SCOTCH_dgraphOrderPerm F_dgraphOrderPerm
extern "C" void scotchfdgraphordercblkdist_(...) __attribute__((weak));
static inline SCOTCH_Num F_dgraphOrderCblkDist(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfdgraphordercblkdist_(a0, a1, &o); return o; }
#define SCOTCH_dgraphOrderCblkDist F_dgraphOrderCblkDist
extern "C" void scotchfdgraphordertreedist_(...) __attribute__((weak));
static inline int F_dgraphOrderTreeDist(const SCOTCH_Dgraph * a0, const SCOTCH_Dordering * a1, SCOTCH_Num * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfdgraphordertreedist_(a0, a1, a2, a3, &o); return o; }
#define SCOTCH_dgraphOrderTreeDist F_dgraphOrderTreeDist
extern "C" void scotchfdgraphredist_(...) __attribute__((weak));
static inline int F_dgraphRedist(SCOTCH_Dgraph * a0, const SCOTCH_Num * a1, const SCOTCH_Num * a2, SCOTCH_Num a3, SCOTCH_Num a4, SCOTCH_Dgraph * a5) { int o = (int)0x5a5a5a5a; scotchfdgraphredist_(a0, a1, a2, &a3, &a4, a5, &o); return o; }
#define SCOTCH_dgraphRedist F_dgraphRedist
extern "C" void scotchfdgraphscatter_(...) __attribute__((weak));
static inline int F_dgraphScatter(SCOTCH_Dgraph * a0, const SCOTCH_Graph * a1) { int o = (int)0x5a5a5a5a; scotchfdgraphscatter_(a0, FA(a1, a0), &o); return o; }
#define SCOTCH_dgraphScatter F_dgraphScatter
extern "C" void scotchfdgraphstat_(...) __attribute__((weak));
static inline int F_dgraphStat(const SCOTCH_Dgraph * a0, SCOTCH_Num * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, double * a4, double * a5, SCOTCH_Num * a6, SCOTCH_Num * a7, double * a8, double * a9, SCOTCH_Num * a10, SCOTCH_Num * a11, SCOTCH_Num * a12, double * a13, double * a14) { Num_ d[280]; double e[20]; int o = (int)0x5a5a5a5a; scotchfdgraphstat_(a0, FD(a1, d[1]), FD(a2, d[2]), FD(a3, d[3]), FD(a4, e[4]), FD(a5, e[5]), FD(a6, d[6]), FD(a7, d[7]), FD(a8, e[8]), FD(a9, e[9]), FD(a10, d[10]), FD(a11, d[11]), FD(a12, d[12]), FD(a13, e[13]), FD(a14, e[14]), &o); return o; }
#define SCOTCH_dgraphStat F_dgraphStat
extern "C" void scotchfgeominit_(...) __attribute__((weak));
static inline int F_geomInit(SCOTCH_Geom * a0) { int o = (int)0x5a5a5a5a; scotchfgeominit_(a0, &o); return o; }
#define SCOTCH_geomInit F_geomInit
extern "C" void scotchfgeomexit_(...) __attribute__((weak));
static inline void F_geomExit(SCOTCH_Geom * a0) {  scotchfgeomexit_(a0); return; }
#define SCOTCH_geomExit F_geomExit
extern "C" void scotchfgeomsizeof_(...) __attribute__((weak));
static inline int F_geomSizeof() { int o = (int)0x5a5a5a5a; scotchfgeomsizeof_(&o); return o; }
#define SCOTCH_geomSizeof F_geomSizeof
extern "C" void scotchfgraphbase_(...) __attribute__((weak));
static inline SCOTCH_Num F_graphBase(SCOTCH_Graph * a0, SCOTCH_Num a1) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfgraphbase_(a0, &a1, &o); return o; }
#define SCOTCH_graphBase F_graphBase
extern "C" void scotchfgraphcheck_(...) __attribute__((weak));
static inline int F_graphCheck(const SCOTCH_Graph * a0) { int o = (int)0x5a5a5a5a; scotchfgraphcheck_(a0, &o); return o; }
#define SCOTCH_graphCheck F_graphCheck
extern "C" void scotchfgraphcoarsen_(...) __attribute__((weak));
static inline int F_graphCoarsen(const SCOTCH_Graph * a0, SCOTCH_Num a1, double a2, SCOTCH_Num a3, SCOTCH_Graph * a4, SCOTCH_Num * a5) { int o = (int)0x5a5a5a5a; scotchfgraphcoarsen_(a0, &a1, &a2, &a3, a4, a5, &o); return o; }
#define SCOTCH_graphCoarsen F_graphCoarsen
extern "C" void scotchfgraphcoarsenmatch_(...) __attribute__((weak));
static inline int F_graphCoarsenMatch(const SCOTCH_Graph * a0, SCOTCH_Num * a1, double a2, SCOTCH_Num a3, SCOTCH_Num * a4) { int o = (int)0x5a5a5a5a; scotchfgraphcoarsenmatch_(a0, a1, &a2, &a3, a4, &o); return o; }
#define SCOTCH_graphCoarsenMatch F_graphCoarsenMatch
extern "C" void scotchfgraphcoarsenbuild_(...) __attribute__((weak));
static inline int F_graphCoarsenBuild(const SCOTCH_Graph * a0, SCOTCH_Num a1, SCOTCH_Num * a2, SCOTCH_Graph * a3, SCOTCH_Num * a4) { int o = (int)0x5a5a5a5a; scotchfgraphcoarsenbuild_(a0, &a1, a2, a3, a4, &o); return o; }
#define SCOTCH_graphCoarsenBuild F_graphCoarsenBuild
extern "C" void scotchfgraphcolor_(...) __attribute__((weak));
static inline int F_graphColor(const SCOTCH_Graph * a0, SCOTCH_Num * a1, SCOTCH_Num * a2, SCOTCH_Num a3) { int o = (int)0x5a5a5a5a; scotchfgraphcolor_(a0, a1, a2, &a3, &o); return o; }
#define SCOTCH_graphColor F_graphColor
extern "C" void scotchfgraphdiampv_(...) __attribute__((weak));
static inline SCOTCH_Num F_graphDiamPV(const SCOTCH_Graph * a0) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfgraphdiampv_(a0, &o); return o; }
#define SCOTCH_graphDiamPV F_graphDiamPV
extern "C" void scotchfgraphinit_(...) __attribute__((weak));
static inline int F_graphInit(SCOTCH_Graph * a0) { int o = (int)0x5a5a5a5a; scotchfgraphinit_(a0, &o); return o; }
#define SCOTCH_graphInit F_graphInit
extern "C" void scotchfgraphexit_(...) __attribute__((weak));
static inline void F_graphExit(SCOTCH_Graph * a0) {  scotchfgraphexit_(a0); return; }
#define SCOTCH_graphExit F_graphExit
extern "C" void scotchfgraphfree_(...) __attribute__((weak));
static inline void F_graphFree(SCOTCH_Graph * a0) {  scotchfgraphfree_(a0); return; }
#define SCOTCH_graphFree F_graphFree
extern "C" void scotchfgraphsizeof_(...) __attribute__((weak));
static inline int F_graphSizeof() { int o = (int)0x5a5a5a5a; scotchfgraphsizeof_(&o); return o; }
#define SCOTCH_graphSizeof F_graphSizeof
extern "C" void scotchfgraphload_(...) __attribute__((weak));
static inline int F_graphLoad(SCOTCH_Graph * a0, FILE * a1, SCOTCH_Num a2, SCOTCH_Num a3) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfgraphload_(a0, &h1.fd, &a2, &a3, &o); return o; }
#define SCOTCH_graphLoad F_graphLoad
extern "C" void scotchfgraphsave_(...) __attribute__((weak));
static inline int F_graphSave(const SCOTCH_Graph * a0, FILE * a1) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfgraphsave_(a0, &h1.fd, &o); return o; }
#define SCOTCH_graphSave F_graphSave
extern "C" void scotchfgraphbuild_(...) __attribute__((weak));
static inline int F_graphBuild(SCOTCH_Graph * a0, SCOTCH_Num a1, SCOTCH_Num a2, const SCOTCH_Num * a3, const SCOTCH_Num * a4, const SCOTCH_Num * a5, const SCOTCH_Num * a6, SCOTCH_Num a7, const SCOTCH_Num * a8, const SCOTCH_Num * a9) { int o = (int)0x5a5a5a5a; scotchfgraphbuild_(a0, &a1, &a2, a3, FA(a4, a3 + 1), FA(a5, a3), FA(a6, a3), &a7, a8, FA(a9, a8), &o); return o; }
#define SCOTCH_graphBuild F_graphBuild
extern "C" void scotchfgraphsize_(...) __attribute__((weak));
static inline void F_graphSize(const SCOTCH_Graph * a0, SCOTCH_Num * a1, SCOTCH_Num * a2) { Num_ d[6];  scotchfgraphsize_(a0, FD(a1, d[1]), FD(a2, d[2])); return; }
#define SCOTCH_graphSize F_graphSize
extern "C" void scotchfgraphstat_(...) __attribute__((weak));
static inline void F_graphStat(const SCOTCH_Graph * a0, SCOTCH_Num * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, double * a4, double * a5, SCOTCH_Num * a6, SCOTCH_Num * a7, double * a8, double * a9, SCOTCH_Num * a10, SCOTCH_Num * a11, SCOTCH_Num * a12, double * a13, double * a14) { Num_ d[280]; double e[20];  scotchfgraphstat_(a0, FD(a1, d[1]), FD(a2, d[2]), FD(a3, d[3]), FD(a4, e[4]), FD(a5, e[5]), FD(a6, d[6]), FD(a7, d[7]), FD(a8, e[8]), FD(a9, e[9]), FD(a10, d[10]), FD(a11, d[11]), FD(a12, d[12]), FD(a13, e[13]), FD(a14, e[14])); return; }
#define SCOTCH_graphStat F_graphStat
extern "C" void scotchfgraphinducelist_(...) __attribute__((weak));
static inline int F_graphInduceList(const SCOTCH_Graph * a0, SCOTCH_Num a1, const SCOTCH_Num * a2, SCOTCH_Graph * a3) { int o = (int)0x5a5a5a5a; scotchfgraphinducelist_(a0, &a1, a2, a3, &o); return o; }
#define SCOTCH_graphInduceList F_graphInduceList
extern "C" void scotchfgraphinducepart_(...) __attribute__((weak));
static inline int F_graphInducePart(const SCOTCH_Graph * a0, SCOTCH_Num a1, const SCOTCH_GraphPart2 * a2, SCOTCH_GraphPart2 a3, SCOTCH_Graph * a4) { int o = (int)0x5a5a5a5a; scotchfgraphinducepart_(a0, &a1, a2, &a3, a4, &o); return o; }
#define SCOTCH_graphInducePart F_graphInducePart
extern "C" void scotchfgraphgeomloadchac_(...) __attribute__((weak));
static inline int F_graphGeomLoadChac(SCOTCH_Graph * a0, SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { FH h2(a2); FH h3(a3 != nullptr ? a3 : a2); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfgraphgeomloadchac_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_graphGeomLoadChac F_graphGeomLoadChac
extern "C" void scotchfgraphgeomsavechac_(...) __attribute__((weak));
static inline int F_graphGeomSaveChac(const SCOTCH_Graph * a0, const SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { FH h2(a2); FH h3(a3 != nullptr ? a3 : a2); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfgraphgeomsavechac_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_graphGeomSaveChac F_graphGeomSaveChac
extern "C" void scotchfgraphgeomloadhabo_(...) __attribute__((weak));
static inline int F_graphGeomLoadHabo(SCOTCH_Graph * a0, SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { FH h2(a2); FH h3(a3 != nullptr ? a3 : a2); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfgraphgeomloadhabo_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_graphGeomLoadHabo F_graphGeomLoadHabo
extern "C" void scotchfgraphgeomloadmmkt_(...) __attribute__((weak));
static inline int F_graphGeomLoadMmkt(SCOTCH_Graph * a0, SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { if (a4 != nullptr) return SCOTCH_graphGeomLoadMmkt(a0, a1, a2, a3, a4); FH h2(a2); FH h3(a3 != nullptr ? a3 : a2); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfgraphgeomloadmmkt_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_graphGeomLoadMmkt F_graphGeomLoadMmkt
extern "C" void scotchfgraphgeomsavemmkt_(...) __attribute__((weak));
static inline int F_graphGeomSaveMmkt(const SCOTCH_Graph * a0, const SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { FH h2(a2); FH h3(a3 != nullptr ? a3 : a2); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfgraphgeomsavemmkt_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_graphGeomSaveMmkt F_graphGeomSaveMmkt
extern "C" void scotchfgraphgeomloadscot_(...) __attribute__((weak));
static inline int F_graphGeomLoadScot(SCOTCH_Graph * a0, SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { if (a2 == nullptr || a3 == nullptr) return SCOTCH_graphGeomLoadScot(a0, a1, a2, a3, a4); FH h2(a2); FH h3(a3); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfgraphgeomloadscot_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_graphGeomLoadScot F_graphGeomLoadScot
extern "C" void scotchfgraphgeomsavescot_(...) __attribute__((weak));
static inline int F_graphGeomSaveScot(const SCOTCH_Graph * a0, const SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { if (a2 == nullptr || a3 == nullptr) return SCOTCH_graphGeomSaveScot(a0, a1, a2, a3, a4); FH h2(a2); FH h3(a3); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfgraphgeomsavescot_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_graphGeomSaveScot F_graphGeomSaveScot
extern "C" void scotchfgraphmapinit_(...) __attribute__((weak));
static inline int F_graphMapInit(const SCOTCH_Graph * a0, SCOTCH_Mapping * a1, const SCOTCH_Arch * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfgraphmapinit_(a0, a1, a2, a3, &o); return o; }
#define SCOTCH_graphMapInit F_graphMapInit
extern "C" void scotchfgraphmapexit_(...) __attribute__((weak));
static inline void F_graphMapExit(const SCOTCH_Graph * a0, SCOTCH_Mapping * a1) {  scotchfgraphmapexit_(a0, a1); return; }
#define SCOTCH_graphMapExit F_graphMapExit
extern "C" void scotchfgraphmapcompute_(...) __attribute__((weak));
static inline int F_graphMapCompute(SCOTCH_Graph * a0, SCOTCH_Mapping * a1, SCOTCH_Strat * a2) { int o = (int)0x5a5a5a5a; scotchfgraphmapcompute_(a0, a1, a2, &o); return o; }
#define SCOTCH_graphMapCompute F_graphMapCompute
extern "C" void scotchfgraphmapfixedcompute_(...) __attribute__((weak));
static inline int F_graphMapFixedCompute(SCOTCH_Graph * a0, SCOTCH_Mapping * a1, SCOTCH_Strat * a2) { int o = (int)0x5a5a5a5a; scotchfgraphmapfixedcompute_(a0, a1, a2, &o); return o; }
#define SCOTCH_graphMapFixedCompute F_graphMapFixedCompute
extern "C" void scotchfgraphremapcompute_(...) __attribute__((weak));
static inline int F_graphRemapCompute(SCOTCH_Graph * a0, SCOTCH_Mapping * a1, SCOTCH_Mapping * a2, double a3, const SCOTCH_Num * a4, SCOTCH_Strat * a5) { int o = (int)0x5a5a5a5a; scotchfgraphremapcompute_(a0, a1, a2, &a3, a4, a5, &o); return o; }
#define SCOTCH_graphRemapCompute F_graphRemapCompute
extern "C" void scotchfgraphremapfixedcompute_(...) __attribute__((weak));
static inline int F_graphRemapFixedCompute(SCOTCH_Graph * a0, SCOTCH_Mapping * a1, SCOTCH_Mapping * a2, double a3, const SCOTCH_Num * a4, SCOTCH_Strat * a5) { int o = (int)0x5a5a5a5a; scotchfgraphremapfixedcompute_(a0, a1, a2, &a3, a4, a5, &o); return o; }
#define SCOTCH_graphRemapFixedCompute F_graphRemapFixedCompute
extern "C" void scotchfgraphmap_(...) __attribute__((weak));
static inline int F_graphMap(SCOTCH_Graph * a0, const SCOTCH_Arch * a1, SCOTCH_Strat * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfgraphmap_(a0, a1, a2, a3, &o); return o; }
#define SCOTCH_graphMap F_graphMap
extern "C" void scotchfgraphmapfixed_(...) __attribute__((weak));
static inline int F_graphMapFixed(SCOTCH_Graph * a0, const SCOTCH_Arch * a1, SCOTCH_Strat * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfgraphmapfixed_(a0, a1, a2, a3, &o); return o; }
#define SCOTCH_graphMapFixed F_graphMapFixed
extern "C" void scotchfgraphremap_(...) __attribute__((weak));
static inline int F_graphRemap(SCOTCH_Graph * a0, const SCOTCH_Arch * a1, SCOTCH_Num * a2, double a3, const SCOTCH_Num * a4, SCOTCH_Strat * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfgraphremap_(a0, a1, a2, &a3, a4, a5, a6, &o); return o; }
#define SCOTCH_graphRemap F_graphRemap
extern "C" void scotchfgraphremapfixed_(...) __attribute__((weak));
static inline int F_graphRemapFixed(SCOTCH_Graph * a0, const SCOTCH_Arch * a1, SCOTCH_Num * a2, double a3, const SCOTCH_Num * a4, SCOTCH_Strat * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfgraphremapfixed_(a0, a1, a2, &a3, a4, a5, a6, &o); return o; }
#define SCOTCH_graphRemapFixed F_graphRemapFixed
extern "C" void scotchfgraphpart_(...) __attribute__((weak));
static inline int F_graphPart(SCOTCH_Graph * a0, SCOTCH_Num a1, SCOTCH_Strat * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfgraphpart_(a0, &a1, a2, a3, &o); return o; }
#define SCOTCH_graphPart F_graphPart
extern "C" void scotchfgraphpartfixed_(...) __attribute__((weak));
static inline int F_graphPartFixed(SCOTCH_Graph * a0, SCOTCH_Num a1, SCOTCH_Strat * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfgraphpartfixed_(a0, &a1, a2, a3, &o); return o; }
#define SCOTCH_graphPartFixed F_graphPartFixed
extern "C" void scotchfgraphrepart_(...) __attribute__((weak));
static inline int F_graphRepart(SCOTCH_Graph * a0, SCOTCH_Num a1, SCOTCH_Num * a2, double a3, const SCOTCH_Num * a4, SCOTCH_Strat * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfgraphrepart_(a0, &a1, a2, &a3, a4, a5, a6, &o); return o; }
#define SCOTCH_graphRepart F_graphRepart
extern "C" void scotchfgraphrepartfixed_(...) __attribute__((weak));
static inline int F_graphRepartFixed(SCOTCH_Graph * a0, SCOTCH_Num a1, SCOTCH_Num * a2, double a3, const SCOTCH_Num * a4, SCOTCH_Strat * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfgraphrepartfixed_(a0, &a1, a2, &a3, a4, a5, a6, &o); return o; }
#define SCOTCH_graphRepartFixed F_graphRepartFixed
extern "C" void scotchfstratgraphmap_(...) __attribute__((weak));
static inline int F_stratGraphMap(SCOTCH_Strat * a0, const char * a1) { FSt s1(a1); int o = (int)0x5a5a5a5a; scotchfstratgraphmap_(a0, s1.p, &o, (size_t)s1.n); return o; }
#define SCOTCH_stratGraphMap F_stratGraphMap
extern "C" void scotchfstratgraphmapbuild_(...) __attribute__((weak));
static inline int F_stratGraphMapBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, SCOTCH_Num a2, double a3) { int o = (int)0x5a5a5a5a; scotchfstratgraphmapbuild_(a0, &a1, &a2, &a3, &o); return o; }
#define SCOTCH_stratGraphMapBuild F_stratGraphMapBuild
extern "C" void scotchfstratgraphclusterbuild_(...) __attribute__((weak));
static inline int F_stratGraphClusterBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, SCOTCH_Num a2, double a3, double a4) { int o = (int)0x5a5a5a5a; scotchfstratgraphclusterbuild_(a0, &a1, &a2, &a3, &a4, &o); return o; }
#define SCOTCH_stratGraphClusterBuild F_stratGraphClusterBuild
extern "C" void scotchfgraphtabload_(...) __attribute__((weak));
static inline int F_graphTabLoad(const SCOTCH_Graph * a0, SCOTCH_Num * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphtabload_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphTabLoad F_graphTabLoad
extern "C" void scotchfgraphtabsave_(...) __attribute__((weak));
static inline int F_graphTabSave(const SCOTCH_Graph * a0, const SCOTCH_Num * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphtabsave_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphTabSave F_graphTabSave
extern "C" void scotchfgraphmapload_(...) __attribute__((weak));
static inline int F_graphMapLoad(const SCOTCH_Graph * a0, SCOTCH_Mapping * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphmapload_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphMapLoad F_graphMapLoad
extern "C" void scotchfgraphmapsave_(...) __attribute__((weak));
static inline int F_graphMapSave(const SCOTCH_Graph * a0, const SCOTCH_Mapping * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphmapsave_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphMapSave F_graphMapSave
extern "C" void scotchfgraphmapview_(...) __attribute__((weak));
static inline int F_graphMapView(const SCOTCH_Graph * a0, const SCOTCH_Mapping * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphmapview_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphMapView F_graphMapView
extern "C" void scotchfgraphorderinit_(...) __attribute__((weak));
static inline int F_graphOrderInit(const SCOTCH_Graph * a0, SCOTCH_Ordering * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfgraphorderinit_(a0, a1, FA(a2, a0), FA(a3, a0), FA(a4, a0), FA(a5, a0), FA(a6, a0), &o); return o; }
#define SCOTCH_graphOrderInit F_graphOrderInit
extern "C" void scotchfgraphorderexit_(...) __attribute__((weak));
static inline void F_graphOrderExit(const SCOTCH_Graph * a0, SCOTCH_Ordering * a1) {  scotchfgraphorderexit_(a0, a1); return; }
#define SCOTCH_graphOrderExit F_graphOrderExit
extern "C" void scotchfgraphordersave_(...) __attribute__((weak));
static inline int F_graphOrderSave(const SCOTCH_Graph * a0, const SCOTCH_Ordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphordersave_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphOrderSave F_graphOrderSave
extern "C" void scotchfgraphordersavemap_(...) __attribute__((weak));
static inline int F_graphOrderSaveMap(const SCOTCH_Graph * a0, const SCOTCH_Ordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphordersavemap_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphOrderSaveMap F_graphOrderSaveMap
extern "C" void scotchfgraphordersavetree_(...) __attribute__((weak));
static inline int F_graphOrderSaveTree(const SCOTCH_Graph * a0, const SCOTCH_Ordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfgraphordersavetree_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_graphOrderSaveTree F_graphOrderSaveTree
extern "C" void scotchfgraphordercompute_(...) __attribute__((weak));
static inline int F_graphOrderCompute(SCOTCH_Graph * a0, SCOTCH_Ordering * a1, SCOTCH_Strat * a2) { int o = (int)0x5a5a5a5a; scotchfgraphordercompute_(a0, a1, a2, &o); return o; }
#define SCOTCH_graphOrderCompute F_graphOrderCompute
extern "C" void scotchfgraphordercomputelist_(...) __attribute__((weak));
static inline int F_graphOrderComputeList(SCOTCH_Graph * a0, SCOTCH_Ordering * a1, SCOTCH_Num a2, const SCOTCH_Num * a3, SCOTCH_Strat * a4) { int o = (int)0x5a5a5a5a; scotchfgraphordercomputelist_(a0, a1, &a2, a3, a4, &o); return o; }
#define SCOTCH_graphOrderComputeList F_graphOrderComputeList
extern "C" void scotchfgraphorder_(...) __attribute__((weak));
static inline int F_graphOrder(SCOTCH_Graph * a0, SCOTCH_Strat * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfgraphorder_(a0, a1, FA(a2, a0), FA(a3, a0), FA(a4, a0), FA(a5, a0), FA(a6, a0), &o); return o; }
#define SCOTCH_graphOrder F_graphOrder
extern "C" void scotchfgraphorderlist_(...) __attribute__((weak));
static inline int F_graphOrderList(SCOTCH_Graph * a0, SCOTCH_Num a1, const SCOTCH_Num * a2, SCOTCH_Strat * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, SCOTCH_Num * a6, SCOTCH_Num * a7, SCOTCH_Num * a8) { int o = (int)0x5a5a5a5a; scotchfgraphorderlist_(a0, &a1, a2, a3, FA(a4, a0), FA(a5, a0), FA(a6, a0), FA(a7, a0), FA(a8, a0), &o); return o; }
#define SCOTCH_graphOrderList F_graphOrderList
extern "C" void scotchfgraphordercheck_(...) __attribute__((weak));
static inline int F_graphOrderCheck(const SCOTCH_Graph * a0, const SCOTCH_Ordering * a1) { int o = (int)0x5a5a5a5a; scotchfgraphordercheck_(a0, a1, &o); return o; }
#define SCOTCH_graphOrderCheck F_graphOrderCheck
extern "C" void scotchfstratgraphorder_(...) __attribute__((weak));
static inline int F_stratGraphOrder(SCOTCH_Strat * a0, const char * a1) { FSt s1(a1); int o = (int)0x5a5a5a5a; scotchfstratgraphorder_(a0, s1.p, &o, (size_t)s1.n); return o; }
#define SCOTCH_stratGraphOrder F_stratGraphOrder
extern "C" void scotchfstratgraphorderbuild_(...) __attribute__((weak));
static inline int F_stratGraphOrderBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, SCOTCH_Num a2, double a3) { int o = (int)0x5a5a5a5a; scotchfstratgraphorderbuild_(a0, &a1, &a2, &a3, &o); return o; }
#define SCOTCH_stratGraphOrderBuild F_stratGraphOrderBuild
extern "C" void scotchfgraphpartovl_(...) __attribute__((weak));
static inline int F_graphPartOvl(SCOTCH_Graph * a0, SCOTCH_Num a1, SCOTCH_Strat * a2, SCOTCH_Num * a3) { int o = (int)0x5a5a5a5a; scotchfgraphpartovl_(a0, &a1, a2, a3, &o); return o; }
#define SCOTCH_graphPartOvl F_graphPartOvl
extern "C" void scotchfstratgraphpartovl_(...) __attribute__((weak));
static inline int F_stratGraphPartOvl(SCOTCH_Strat * a0, const char * a1) { FSt s1(a1); int o = (int)0x5a5a5a5a; scotchfstratgraphpartovl_(a0, s1.p, &o, (size_t)s1.n); return o; }
#define SCOTCH_stratGraphPartOvl F_stratGraphPartOvl
extern "C" void scotchfstratgraphpartovlbuild_(...) __attribute__((weak));
static inline int F_stratGraphPartOvlBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, SCOTCH_Num a2, double a3) { int o = (int)0x5a5a5a5a; scotchfstratgraphpartovlbuild_(a0, &a1, &a2, &a3, &o); return o; }
#define SCOTCH_stratGraphPartOvlBuild F_stratGraphPartOvlBuild
extern "C" void scotchfnumsizeof_(...) __attribute__((weak));
static inline int F_numSizeof() { int o = (int)0x5a5a5a5a; scotchfnumsizeof_(&o); return o; }
#define SCOTCH_numSizeof F_numSizeof
extern "C" void scotchfmeshinit_(...) __attribute__((weak));
static inline int F_meshInit(SCOTCH_Mesh * a0) { int o = (int)0x5a5a5a5a; scotchfmeshinit_(a0, &o); return o; }
#define SCOTCH_meshInit F_meshInit
extern "C" void scotchfmeshexit_(...) __attribute__((weak));
static inline void F_meshExit(SCOTCH_Mesh * a0) {  scotchfmeshexit_(a0); return; }
#define SCOTCH_meshExit F_meshExit
extern "C" void scotchfmeshsizeof_(...) __attribute__((weak));
static inline int F_meshSizeof() { int o = (int)0x5a5a5a5a; scotchfmeshsizeof_(&o); return o; }
#define SCOTCH_meshSizeof F_meshSizeof
extern "C" void scotchfmeshload_(...) __attribute__((weak));
static inline int F_meshLoad(SCOTCH_Mesh * a0, FILE * a1, SCOTCH_Num a2) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfmeshload_(a0, &h1.fd, &a2, &o); return o; }
#define SCOTCH_meshLoad F_meshLoad
extern "C" void scotchfmeshsave_(...) __attribute__((weak));
static inline int F_meshSave(const SCOTCH_Mesh * a0, FILE * a1) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfmeshsave_(a0, &h1.fd, &o); return o; }
#define SCOTCH_meshSave F_meshSave
extern "C" void scotchfmeshbuild_(...) __attribute__((weak));
static inline int F_meshBuild(SCOTCH_Mesh * a0, SCOTCH_Num a1, SCOTCH_Num a2, SCOTCH_Num a3, SCOTCH_Num a4, const SCOTCH_Num * a5, const SCOTCH_Num * a6, const SCOTCH_Num * a7, const SCOTCH_Num * a8, const SCOTCH_Num * a9, SCOTCH_Num a10, const SCOTCH_Num * a11) { int o = (int)0x5a5a5a5a; scotchfmeshbuild_(a0, &a1, &a2, &a3, &a4, a5, FA(a6, a5 + 1), FA(a7, a5), FA(a8, a5), FA(a9, a5), &a10, a11, &o); return o; }
#define SCOTCH_meshBuild F_meshBuild
extern "C" void scotchfmeshcheck_(...) __attribute__((weak));
static inline int F_meshCheck(const SCOTCH_Mesh * a0) { int o = (int)0x5a5a5a5a; scotchfmeshcheck_(a0, &o); return o; }
#define SCOTCH_meshCheck F_meshCheck
extern "C" void scotchfmeshsize_(...) __attribute__((weak));
static inline void F_meshSize(const SCOTCH_Mesh * a0, SCOTCH_Num * a1, SCOTCH_Num * a2, SCOTCH_Num * a3) { Num_ d[6];  scotchfmeshsize_(a0, FD(a1, d[1]), FD(a2, d[2]), FD(a3, d[3])); return; }
#define SCOTCH_meshSize F_meshSize
extern "C" void scotchfmeshgraph_(...) __attribute__((weak));
static inline int F_meshGraph(const SCOTCH_Mesh * a0, SCOTCH_Graph * a1) { int o = (int)0x5a5a5a5a; scotchfmeshgraph_(a0, a1, &o); return o; }
#define SCOTCH_meshGraph F_meshGraph
extern "C" void scotchfmeshgraphdual_(...) __attribute__((weak));
static inline int F_meshGraphDual(const SCOTCH_Mesh * a0, SCOTCH_Graph * a1, SCOTCH_Num a2) { int o = (int)0x5a5a5a5a; scotchfmeshgraphdual_(a0, a1, &a2, &o); return o; }
#define SCOTCH_meshGraphDual F_meshGraphDual
extern "C" void scotchfmeshgeomloadhabo_(...) __attribute__((weak));
static inline int F_meshGeomLoadHabo(SCOTCH_Mesh * a0, SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { FH h2(a2); FH h3(a3 != nullptr ? a3 : a2); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfmeshgeomloadhabo_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_meshGeomLoadHabo F_meshGeomLoadHabo
extern "C" void scotchfmeshgeomloadscot_(...) __attribute__((weak));
static inline int F_meshGeomLoadScot(SCOTCH_Mesh * a0, SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { if (a2 == nullptr || a3 == nullptr) return SCOTCH_meshGeomLoadScot(a0, a1, a2, a3, a4); FH h2(a2); FH h3(a3); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfmeshgeomloadscot_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_meshGeomLoadScot F_meshGeomLoadScot
extern "C" void scotchfmeshgeomsavescot_(...) __attribute__((weak));
static inline int F_meshGeomSaveScot(const SCOTCH_Mesh * a0, const SCOTCH_Geom * a1, FILE * a2, FILE * a3, const char * a4) { if (a2 == nullptr || a3 == nullptr) return SCOTCH_meshGeomSaveScot(a0, a1, a2, a3, a4); FH h2(a2); FH h3(a3); FSt s4(a4); int o = (int)0x5a5a5a5a; scotchfmeshgeomsavescot_(a0, a1, &h2.fd, &h3.fd, s4.p, &o, (size_t)s4.n); return o; }
#define SCOTCH_meshGeomSaveScot F_meshGeomSaveScot
extern "C" void scotchfmeshorderinit_(...) __attribute__((weak));
static inline int F_meshOrderInit(const SCOTCH_Mesh * a0, SCOTCH_Ordering * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfmeshorderinit_(a0, a1, FA(a2, a0), FA(a3, a0), FA(a4, a0), FA(a5, a0), FA(a6, a0), &o); return o; }
#define SCOTCH_meshOrderInit F_meshOrderInit
extern "C" void scotchfmeshorderexit_(...) __attribute__((weak));
static inline void F_meshOrderExit(const SCOTCH_Mesh * a0, SCOTCH_Ordering * a1) {  scotchfmeshorderexit_(a0, a1); return; }
#define SCOTCH_meshOrderExit F_meshOrderExit
extern "C" void scotchfmeshordersave_(...) __attribute__((weak));
static inline int F_meshOrderSave(const SCOTCH_Mesh * a0, const SCOTCH_Ordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfmeshordersave_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_meshOrderSave F_meshOrderSave
extern "C" void scotchfmeshordersavemap_(...) __attribute__((weak));
static inline int F_meshOrderSaveMap(const SCOTCH_Mesh * a0, const SCOTCH_Ordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfmeshordersavemap_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_meshOrderSaveMap F_meshOrderSaveMap
extern "C" void scotchfmeshordersavetree_(...) __attribute__((weak));
static inline int F_meshOrderSaveTree(const SCOTCH_Mesh * a0, const SCOTCH_Ordering * a1, FILE * a2) { FH h2(a2); int o = (int)0x5a5a5a5a; scotchfmeshordersavetree_(a0, a1, &h2.fd, &o); return o; }
#define SCOTCH_meshOrderSaveTree F_meshOrderSaveTree
extern "C" void scotchfmeshordercompute_(...) __attribute__((weak));
static inline int F_meshOrderCompute(SCOTCH_Mesh * a0, SCOTCH_Ordering * a1, SCOTCH_Strat * a2) { int o = (int)0x5a5a5a5a; scotchfmeshordercompute_(a0, a1, a2, &o); return o; }
#define SCOTCH_meshOrderCompute F_meshOrderCompute
extern "C" void scotchfmeshordercomputelist_(...) __attribute__((weak));
static inline int F_meshOrderComputeList(SCOTCH_Mesh * a0, SCOTCH_Ordering * a1, SCOTCH_Num a2, const SCOTCH_Num * a3, SCOTCH_Strat * a4) { int o = (int)0x5a5a5a5a; scotchfmeshordercomputelist_(a0, a1, &a2, a3, a4, &o); return o; }
#define SCOTCH_meshOrderComputeList F_meshOrderComputeList
extern "C" void scotchfmeshorder_(...) __attribute__((weak));
static inline int F_meshOrder(SCOTCH_Mesh * a0, SCOTCH_Strat * a1, SCOTCH_Num * a2, SCOTCH_Num * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, SCOTCH_Num * a6) { int o = (int)0x5a5a5a5a; scotchfmeshorder_(a0, a1, FA(a2, a0), FA(a3, a0), FA(a4, a0), FA(a5, a0), FA(a6, a0), &o); return o; }
#define SCOTCH_meshOrder F_meshOrder
extern "C" void scotchfmeshorderlist_(...) __attribute__((weak));
static inline int F_meshOrderList(SCOTCH_Mesh * a0, SCOTCH_Num a1, const SCOTCH_Num * a2, SCOTCH_Strat * a3, SCOTCH_Num * a4, SCOTCH_Num * a5, SCOTCH_Num * a6, SCOTCH_Num * a7, SCOTCH_Num * a8) { int o = (int)0x5a5a5a5a; scotchfmeshorderlist_(a0, &a1, a2, a3, FA(a4, a0), FA(a5, a0), FA(a6, a0), FA(a7, a0), FA(a8, a0), &o); return o; }
#define SCOTCH_meshOrderList F_meshOrderList
extern "C" void scotchfmeshordercheck_(...) __attribute__((weak));
static inline int F_meshOrderCheck(const SCOTCH_Mesh * a0, const SCOTCH_Ordering * a1) { int o = (int)0x5a5a5a5a; scotchfmeshordercheck_(a0, a1, &o); return o; }
#define SCOTCH_meshOrderCheck F_meshOrderCheck
extern "C" void scotchfstratmeshorder_(...) __attribute__((weak));
static inline int F_stratMeshOrder(SCOTCH_Strat * a0, const char * a1) { FSt s1(a1); int o = (int)0x5a5a5a5a; scotchfstratmeshorder_(a0, s1.p, &o, (size_t)s1.n); return o; }
#define SCOTCH_stratMeshOrder F_stratMeshOrder
extern "C" void scotchfstratmeshorderbuild_(...) __attribute__((weak));
static inline int F_stratMeshOrderBuild(SCOTCH_Strat * a0, SCOTCH_Num a1, double a2) { int o = (int)0x5a5a5a5a; scotchfstratmeshorderbuild_(a0, &a1, &a2, &o); return o; }
#define SCOTCH_stratMeshOrderBuild F_stratMeshOrderBuild
extern "C" void scotchfstratinit_(...) __attribute__((weak));
static inline int F_stratInit(SCOTCH_Strat * a0) { int o = (int)0x5a5a5a5a; scotchfstratinit_(a0, &o); return o; }
#define SCOTCH_stratInit F_stratInit
extern "C" void scotchfstratexit_(...) __attribute__((weak));
static inline void F_stratExit(SCOTCH_Strat * a0) {  scotchfstratexit_(a0); return; }
#define SCOTCH_stratExit F_stratExit
extern "C" void scotchfstratfree_(...) __attribute__((weak));
static inline void F_stratFree(SCOTCH_Strat * a0) {  scotchfstratfree_(a0); return; }
#define SCOTCH_stratFree F_stratFree
extern "C" void scotchfstratsave_(...) __attribute__((weak));
static inline int F_stratSave(const SCOTCH_Strat * a0, FILE * a1) { FH h1(a1); int o = (int)0x5a5a5a5a; scotchfstratsave_(a0, &h1.fd, &o); return o; }
#define SCOTCH_stratSave F_stratSave
extern "C" void scotchfrandomload_(...) __attribute__((weak));
static inline int F_randomLoad(FILE * a0) { FH h0(a0); int o = (int)0x5a5a5a5a; scotchfrandomload_(&h0.fd, &o); return o; }
#define SCOTCH_randomLoad F_randomLoad
extern "C" void scotchfrandomsave_(...) __attribute__((weak));
static inline int F_randomSave(FILE * a0) { FH h0(a0); int o = (int)0x5a5a5a5a; scotchfrandomsave_(&h0.fd, &o); return o; }
#define SCOTCH_randomSave F_randomSave
extern "C" void scotchfrandomproc_(...) __attribute__((weak));
static inline void F_randomProc(int a0) {  scotchfrandomproc_(&a0); return; }
#define SCOTCH_randomProc F_randomProc
extern "C" void scotchfrandomreset_(...) __attribute__((weak));
static inline void F_randomReset() {  scotchfrandomreset_(); return; }
#define SCOTCH_randomReset F_randomReset
extern "C" void scotchfrandomseed_(...) __attribute__((weak));
static inline void F_randomSeed(SCOTCH_Num a0) {  scotchfrandomseed_(&a0); return; }
#define SCOTCH_randomSeed F_randomSeed
extern "C" void scotchfrandomval_(...) __attribute__((weak));
static inline SCOTCH_Num F_randomVal(SCOTCH_Num a0) { SCOTCH_Num o = (SCOTCH_Num)0x5a5a5a5a; scotchfrandomval_(&a0, &o); return o; }
#define SCOTCH_randomVal F_randomVal
extern "C" void scotchfversion_(...) __attribute__((weak));
static inline void F_version(int * a0, int * a1, int * a2) {  scotchfversion_(a0, a1, a2); return; }
#define SCOTCH_version F_version

extern "C" void scotchfdgraphbuild_(...) __attribute__((weak));
static inline int F_dgraphBuild(SCOTCH_Dgraph *g, SCOTCH_Num b, SCOTCH_Num n, SCOTCH_Num x, SCOTCH_Num *vt, SCOTCH_Num *ve, SCOTCH_Num *vw, SCOTCH_Num *vl, SCOTCH_Num m, SCOTCH_Num z, SCOTCH_Num *et, SCOTCH_Num *eg, SCOTCH_Num *ew) {
  int o = 0x5a5a5a5a; scotchfdgraphbuild_(g, &b, &n, &x, vt, FA(ve, vt + 1), FA(vw, vt), FA(vl, vt), &m, &z, et, FA(eg, et), FA(ew, et), &o); return o; }
#define SCOTCH_dgraphBuild F_dgraphBuild
extern "C" void scotchfgraphdata_(...) __attribute__((weak));
#define f_base ((Num_*)sim_heap_base())           // Array from which the indices are counted: near enough for 32-bit indices, as the shipped build has them
static inline uintptr_t f_at(uintptr_t b, uintptr_t d) { b += d; asm("" : "+r"(b)); return b; }   // the compiler must not take this for a place in the base array
// An absent array is given as the place of another one; when that one is empty, an empty array may be at the same place and the answer of the C routine (c) counts
static inline void FP(SCOTCH_Num **p, SCOTCH_Idx i, SCOTCH_Idx none1, SCOTCH_Idx none2, SCOTCH_Num *c = nullptr) { if (p && c && (i == none1 || i == none2)) *p = c; else if (p) *p = i == none1 || i == none2 ? nullptr : (Num_*)f_at((uintptr_t)f_base, (uintptr_t)(i - 1) * sizeof(Num_)); }
static inline void F_graphData(const SCOTCH_Graph *g, SCOTCH_Num *b, SCOTCH_Num *n, SCOTCH_Num **vt, SCOTCH_Num **ve, SCOTCH_Num **vw, SCOTCH_Num **vl, SCOTCH_Num *m, SCOTCH_Num **et, SCOTCH_Num **ew) {
  Num_ d[3]; SCOTCH_Idx x[6]; memset(x, 0x5a, sizeof x); SCOTCH_Idx no = (SCOTCH_Idx)1 << 62;
  scotchfgraphdata_(g, f_base, FD(b, d[0]), FD(n, d[1]), &x[0], &x[1], &x[2], &x[3], FD(m, d[2]), &x[4], &x[5]);
  Num_ *cw, *cl, *ce, cn, cm; SCOTCH_graphData(g, nullptr, &cn, nullptr, nullptr, &cw, &cl, &cm, nullptr, &ce); if (cn) cw = cl = nullptr; if (cm) ce = nullptr;
  FP(vt, x[0], no, no); FP(ve, x[1], no, no); FP(vw, x[2], x[0], no, cw); FP(vl, x[3], x[0], no, cl); FP(et, x[4], no, no); FP(ew, x[5], x[0], x[4], ce); }
#define SCOTCH_graphData F_graphData
extern "C" void scotchfdgraphdata_(...) __attribute__((weak));
static inline void F_dgraphData(const SCOTCH_Dgraph *g, SCOTCH_Num *b, SCOTCH_Num *gn, SCOTCH_Num *ln, SCOTCH_Num *lx, SCOTCH_Num *gs, SCOTCH_Num **vt, SCOTCH_Num **ve, SCOTCH_Num **vw, SCOTCH_Num **vl, SCOTCH_Num *eg, SCOTCH_Num *el, SCOTCH_Num *ez, SCOTCH_Num **et, SCOTCH_Num **egs, SCOTCH_Num **ew, MPI_Comm *c) {
  Num_ d[9]; SCOTCH_Idx x[7]; memset(x, 0x5a, sizeof x); SCOTCH_Idx no = (SCOTCH_Idx)1 << 62; MPI_Fint fc = 0x5a5a;
  scotchfdgraphdata_(g, f_base, FD(b, d[0]), FD(gn, d[1]), FD(ln, d[2]), FD(lx, d[3]), FD(gs, d[4]), &x[0], &x[1], &x[2], &x[3], FD(eg, d[5]), FD(el, d[6]), FD(ez, d[7]), &x[4], &x[5], &x[6], &fc);
  Num_ *cw, *cl, *ce, cn, cm; SCOTCH_dgraphData(g, nullptr, nullptr, &cn, nullptr, nullptr, nullptr, nullptr, &cw, &cl, nullptr, &cm, nullptr, nullptr, nullptr, &ce, nullptr); if (cn) cw = cl = nullptr; if (cm) ce = nullptr;
  FP(vt, x[0], no, no); FP(ve, x[1], no, no); FP(vw, x[2], x[0], no, cw); FP(vl, x[3], x[0], no, cl); FP(et, x[4], no, no); FP(egs, x[5], x[0], no); FP(ew, x[6], x[0], x[4], ce); if (c) *c = MPI_Comm_f2c(fc); }
#define SCOTCH_dgraphData F_dgraphData
extern "C" void scotchfmeshdata_(...) __attribute__((weak));
static inline void F_meshData(const SCOTCH_Mesh *g, SCOTCH_Num *eb, SCOTCH_Num *nb, SCOTCH_Num *en, SCOTCH_Num *nn, SCOTCH_Num **vt, SCOTCH_Num **ve, SCOTCH_Num **vw, SCOTCH_Num **nw, SCOTCH_Num **vl, SCOTCH_Num *m, SCOTCH_Num **et, SCOTCH_Num *dg) {
  Num_ d[6]; SCOTCH_Idx x[6]; memset(x, 0x5a, sizeof x); SCOTCH_Idx no = (SCOTCH_Idx)1 << 62;
  scotchfmeshdata_(g, f_base, FD(eb, d[0]), FD(nb, d[1]), FD(en, d[2]), FD(nn, d[3]), &x[0], &x[1], &x[2], &x[3], &x[4], FD(m, d[4]), &x[5], FD(dg, d[5]));
  FP(vt, x[0], no, no); FP(ve, x[1], no, no); FP(vw, x[2], x[0], no); FP(nw, x[3], x[0], no); FP(vl, x[4], x[0], no); FP(et, x[5], no, no); }
#define SCOTCH_meshData F_meshData
extern "C" void scotchfgeomdata_(...) __attribute__((weak));
#define f_gbase ((double*)sim_heap_base())
static inline void F_geomData(const SCOTCH_Geom *g, SCOTCH_Num *dim, double **p) { Num_ d; SCOTCH_Idx x = 0x5a5a; scotchfgeomdata_(g, f_gbase, FD(dim, d), &x); if (p) *p = (double*)f_at((uintptr_t)f_gbase, (uintptr_t)(x - 1) * sizeof(double)); }
#define SCOTCH_geomData F_geomData
extern "C" void scotchfarchname_(...) __attribute__((weak));
static inline char *F_archName(const SCOTCH_Arch *a) { static char b[4][64]; static int k; char *p = b[k++ & 3]; memset(p, 0, 64); int n = 40; scotchfarchname_(a, p, &n, (size_t)40); return p; }
#define SCOTCH_archName F_archName
