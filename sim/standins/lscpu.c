/* lscpu stand-in: describes the machine given by SIM_* variables, in util-linux format. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static const char* e(const char* n, const char* d) { const char* v = getenv(n); return v && *v ? v : d; }
/* total of n equal caches, as lscpu prints sizes: one decimal when needed */
static const char* mul(const char* one, int n, char* b) {
  char* u; double x = strtod(one, &u); if (u == one || (*u != 'K' && *u != 'M' && *u != 'G') || u[1]) return one;
  double k = x * n * (*u == 'K' ? 1 : *u == 'M' ? 1024.0 : 1048576.0); char un = 'K'; if (k >= 1024) { k /= 1024; un = 'M'; } if (k >= 1024) { k /= 1024; un = 'G'; }
  long r = (long)(k * 10 + 0.5); if (r % 10) sprintf(b, "%ld.%ld%c", r / 10, r % 10, un); else sprintf(b, "%ld%c", r / 10, un); return b;
}
int main(int c, char** v) {
  int drop = atoi(e("SIM_DROP", "0")), i, one = 0, all = 0; int cpus = atoi(e("SIM_CPUS", "4")), t = atoi(e("SIM_THREADS", "1")), s = atoi(e("SIM_SOCKETS", "1"));
  const char* l1 = e("SIM_L1", "32K"), *l2 = e("SIM_L2", "1M"), *l3 = e("SIM_L3", "8M"), *l3a = e("SIM_L3ALL", l3); int num = atoi(e("SIM_MODELNUM", "-1"));
  int n = t > 0 && cpus / t > 0 ? cpus / t : 1; char b1[64], b2[64], b3[64]; const char *a1 = mul(l1, n, b1), *a2 = mul(l2, n, b2); if (!*e("SIM_L3ALL", "")) l3a = mul(l3, s, b3);
  for (i = 1; i < c; i++) { if (strstr(v[i], "ONE-SIZE")) one = 1; if (strstr(v[i], "ALL-SIZE")) all = 1; }
  if (one || all) {
    printf(one && all ? "NAME ONE-SIZE ALL-SIZE\n" : one ? "NAME ONE-SIZE\n" : "NAME ALL-SIZE\n");
    if (!(drop & 4)) { printf("L1d %9s%s%s\n", one ? l1 : a1, one && all ? " " : "", one && all ? a1 : ""); printf("L1i %9s%s%s\n", one ? l1 : a1, one && all ? " " : "", one && all ? a1 : ""); }
    if (!(drop & 8)) printf("L2  %9s%s%s\n", one ? l2 : a2, one && all ? " " : "", one && all ? a2 : "");
    if (!(drop & 16)) { if (one && all) printf("L3  %9s %s\n", l3, l3a); else printf("L3  %9s\n", all ? l3a : l3); }
    return 0;
  }
  printf("Architecture:        x86_64\nCPU(s):              %d\n", cpus);
  if (num >= 0) printf("Model:               %d\n", num);
  if (!(drop & 1)) printf("Model name:          %s\n", e("SIM_MODEL", "Generic CPU @ 2.50GHz"));
  if (!(drop & 2)) printf("Thread(s) per core:  %d\n", t);
  printf("Core(s) per socket:  %d\n", t * s > 0 ? cpus / (t * s) : 0);
  if (!(drop & 32)) printf("Socket(s):           %d\n", s);
  return 0;
}
