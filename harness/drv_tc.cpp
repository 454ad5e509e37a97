// The tc.exe driver, its main() under another name.
#include "nw.h"
#define main           drv_tc_main
#define print_n_ranks  drv_tc_print_n_ranks
#include "tc.cpp"
