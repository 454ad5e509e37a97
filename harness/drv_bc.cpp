// The bc.exe driver, its main() under another name.
#include "nw.h"
#define main           drv_bc_main
#define print_n_ranks  drv_bc_print_n_ranks
#include "bc.cpp"
