// The cc.exe driver, its main() under another name.
#include "nw.h"
#define main           drv_cc_main
#define print_n_ranks  drv_cc_print_n_ranks
#include "cc.cpp"
