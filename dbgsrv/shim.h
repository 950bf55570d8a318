// Included before the debug server's own source: its stdio goes to the simulated console of its process (sim/misc.cc).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
extern "C" {
int dbs_printf(const char *f, ...);
int dbs_fprintf(FILE *o, const char *f, ...);
size_t dbs_fwrite(const void *p, size_t s, size_t n, FILE *o);
int dbs_fflush(FILE *o);
}
#define printf(...) dbs_printf(__VA_ARGS__)
#define fprintf(o, ...) dbs_fprintf(o, __VA_ARGS__)
#define fwrite(p, s, n, o) dbs_fwrite(p, s, n, o)
#define fflush(o) dbs_fflush(o)
#define fputs(s, o) dbs_fprintf(o, "%s", s)
#define puts(s) dbs_printf("%s\n", s)
