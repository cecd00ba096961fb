// The repository's converter program, run inside the simulator.
#define main spmp_mtx2bin_main
#include "test/mtx2bin.cpp"
