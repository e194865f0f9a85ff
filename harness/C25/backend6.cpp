#define VARIANT 6
#include "backend.inc"
