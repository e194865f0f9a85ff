#define VARIANT 7
#include "backend.inc"
