#define main cherpars_main
#include "test/cherpars.cpp"
