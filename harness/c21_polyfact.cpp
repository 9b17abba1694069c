#define main polyfact_main
#include "test/polyfact.cpp"
