#include "../app/mapgen-options.cc"
