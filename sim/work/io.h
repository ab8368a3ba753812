// Saving and loading of every kind of file the sequential library reads and writes.
#pragma once
#include "job.h"
enum { O_GRAPH, O_CHAC, O_MMKT, O_GGEOM, O_MESH, O_MGEOM, O_TAB, O_MAP, O_ORDER, O_ARCH, O_ARCHTXT, O_LOADABLE, O_ORDX = O_LOADABLE, O_MORD, O_NB };   // the last two have no loader: their files are parsed here
extern const char *oname[];
struct IoSpec { int kind = 0; RG g; RM m; ArchSpec a; std::string text; Num base = 0; bool gaps = false; uint64_t sd = 0; int dim = 2; V part; std::vector<double> geo; V lab; Num loadbase = -1; Num flags = 0; V perm; int var = 0; };
IoSpec gen_io(int kind, int maxn);
struct IoLive { const IoSpec *s = nullptr; CG C; CM M; Arch A; SCOTCH_Geom geom; bool hasgeom = false, hasord = false, hasmord = false, hasmap = false, hasarch = false; SN perm, peri, rang, tree, part; Num cblk; SCOTCH_Ordering ord; SCOTCH_Mapping map; SCOTCH_Arch one; bool mm0 = false; const std::string *orig = nullptr;   // file the object to load was saved in
 
  void open(const IoSpec &s_); int save(FILE *f, FILE *f2); void close(); 
  int load(FILE *f, FILE *f2, bool compare); };     // status of the library; a loaded object is checked, compared with the original when asked for, and freed
bool two_files(int kind);
std::string habo_graph(LR &r, RG &out), habo_mesh(LR &r); int habo_load(bool mesh, FILE *f, const char *tag, const RG *want);
std::string slurp_file(const char *n);
