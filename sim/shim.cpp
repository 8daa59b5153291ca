// Compiled into every library copy: instantiates the header-inline API under
// instrumentation and tells the simulator where this copy's data lies.
#define SIM_NO_API
#include "api.h"
extern "C" {
void *sim_inline_table[] = {
#define X(n) (void *)&::n,
  INLINE_LIST(X)
#undef X
};
__thread int sim_tls_word;
void *sim_tls_touch(void) { return (void *)&sim_tls_word; }   // makes the loader materialise this copy's thread-locals
void sim_module_ctor(void *self);
__attribute__((constructor(101))) static void sim_ctor(void) { sim_module_ctor((void *)sim_inline_table); }
}
