#define PREC float
#define FN grid_f
#include "c02_prec.ipp"
