// The program under test, callable as a function
#define main mapgen_main
#include "../app/mapgen.cc"
