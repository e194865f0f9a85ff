#define VARIANT 3
#include "backend.inc"
