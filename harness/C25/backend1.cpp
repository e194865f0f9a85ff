#define VARIANT 1
#include "backend.inc"
