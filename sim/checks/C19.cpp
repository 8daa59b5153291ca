#include "pcq.h"
struct C19 : QueueCheck {
  C19() : QueueCheck("C19", false) {}
  void setup(Prog &p) override { prog = &p; QueueCheck::setup(p); }
};
static C19 c; static Reg reg(&c);
