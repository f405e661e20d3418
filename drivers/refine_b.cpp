#define REFINE_NORM
#include "refine.cpp"
