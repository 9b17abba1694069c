#define main zzrndgen_main
#include "test/zzrndgen.cpp"
