// Linked into the agent image: tells the simulator about failed internal assertions, then goes on as usual.
extern "C" void __real__Z15agentAssertFailPKciS0_(const char *, int, const char *);
extern "C" void simAgentAssert(const char *, int, const char *);
extern "C" void __wrap__Z15agentAssertFailPKciS0_(const char *f, int l, const char *c) { simAgentAssert(f, l, c); __real__Z15agentAssertFailPKciS0_(f, l, c); }
