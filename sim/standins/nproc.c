#include <stdio.h>
#include <stdlib.h>
int main() { const char* n = getenv("SIM_CPUS"); printf("%d\n", n && *n ? atoi(n) : 4); return 0; }
