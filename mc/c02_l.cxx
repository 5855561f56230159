#define PREC long double
#define FN grid_l
#include "c02_prec.ipp"
