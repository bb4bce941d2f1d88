#include "../app/ffgen-options.cc"
