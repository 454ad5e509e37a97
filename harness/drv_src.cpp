// The sources driver, its main() under another name.
#include "nw.h"
#define main           drv_src_main
#define print_n_ranks  drv_src_print_n_ranks
#include "SourceVerifier.cpp"
