#define VARIANT 2
#include "backend.inc"
