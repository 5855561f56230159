#define PREC double
#define FN grid_d
#include "c02_prec.ipp"
