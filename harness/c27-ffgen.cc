// The program under test, callable as a function
#define main ffgen_main
#include "../app/ffgen.cc"
