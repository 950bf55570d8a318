extern "C" void __real__Z11assertTracePKciS0_(const char *, int, const char *);
extern "C" void simAssertTrace(const char *, int, const char *);
extern "C" void __wrap__Z11assertTracePKciS0_(const char *f, int l, const char *c) { simAssertTrace(f, l, c); __real__Z11assertTracePKciS0_(f, l, c); }
