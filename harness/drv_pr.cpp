// The pr.exe driver, its main() under another name.
#include "nw.h"
#define main           drv_pr_main
#define print_n_ranks  drv_pr_print_n_ranks
#include "pr.cpp"
