#define VARIANT 5
#include "backend.inc"
