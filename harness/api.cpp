#include "api.hpp"
namespace api {
std::vector<Entry> &entries() { static std::vector<Entry> e; return e; }
static FILE *env_file(const char *name) { const char *p = getenv(name); return p ? fopen(p, "w") : nullptr; }
FILE *log_file() { static FILE *f = env_file("VH_TRANSCRIPT_LOG"); return f; }
void finish(Case &c, T &t) {
  static FILE *f = env_file("VH_TRANSCRIPT");
  if (f) { fprintf(f, "%s %llu %016llx\n", c.test, (unsigned long long)c.idx, (unsigned long long)t.h); fflush(f); }
  if (log_file()) fflush(log_file());
  ev("calls", t.calls);
  ev("calls_accepted", t.ok);
  sample(fmt("case %llu: %llu calls, %llu accepted, transcript %016llx", (unsigned long long)c.idx, (unsigned long long)t.calls, (unsigned long long)t.ok, (unsigned long long)t.h));
  eval(t.h);
}
}  // namespace api
