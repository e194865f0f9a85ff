#define VARIANT 4
#include "backend.inc"
