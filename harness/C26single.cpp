#include "C26.inc"
