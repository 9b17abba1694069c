#define main eopsisimul_main
#include "test/eopsisimul.cpp"
