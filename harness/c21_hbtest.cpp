#define main hbtest_main
#include "test/hbtest.cpp"
