/* grep stand-in: answers the core-count question, passes everything else to the real grep. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int c, char** v) {
  int i, cpu = 0, cnt = 0; for (i = 1; i < c; i++) { if (!strcmp(v[i], "/proc/cpuinfo")) cpu = 1; if (!strcmp(v[i], "-c") || !strcmp(v[i], "--count")) cnt = 1; }
  if (cpu) { const char* n = getenv("SIM_CPUS"); int k = n && *n ? atoi(n) : 4; const char* d = getenv("SIM_DROP"); if (d && (atoi(d) & 64)) k = 0; if (cnt) { printf("%d\n", k); return k == 0; } for (i = 0; i < k; i++) printf("processor\t: %d\n", i); return k == 0; }
  execv("/usr/bin/grep", v); execv("/bin/grep", v); return 127;
}
