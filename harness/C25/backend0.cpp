#define VARIANT 0
#include "backend.inc"
