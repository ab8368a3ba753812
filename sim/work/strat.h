// Random strategy strings. Thresholds are small so that every branch is taken on small graphs.
#pragma once
#include "w.h"
std::string st_bip(LR &r, int depth = 0);        // sequential bipartitioning
std::string st_vsep(LR &r, int depth = 0);       // sequential vertex separation
std::string st_hord(LR &r, int depth = 0);       // sequential ordering
std::string st_kmap(LR &r, int depth = 0);       // sequential mapping
std::string st_wpart(LR &r, int depth = 0);      // sequential overlapping partitioning
std::string st_vmesh(LR &r, int depth = 0);      // mesh separation
std::string st_hmesh(LR &r, int depth = 0);      // mesh ordering
std::string st_dsep(LR &r, int depth = 0);       // parallel vertex separation
std::string st_dord(LR &r, int depth = 0);       // parallel ordering
std::string st_dbip(LR &r, int depth = 0);       // parallel bipartitioning
std::string st_dmap(LR &r, int depth = 0);       // parallel mapping
