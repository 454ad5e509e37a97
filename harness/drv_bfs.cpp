// The bfs.exe driver, its main() under another name.
#include "nw.h"
#define main           drv_bfs_main
#define print_n_ranks  drv_bfs_print_n_ranks
#include "bfs.cpp"
