// The process_edge_list driver, its main() under another name.
#include "nw.h"
#define main           drv_conv_main
#define print_n_ranks  drv_conv_print_n_ranks
#include "ProcessEdgelist.cpp"
