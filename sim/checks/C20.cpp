#include "pcq.h"
struct C20 : QueueCheck {
  C20() : QueueCheck("C20", true) {}
  void setup(Prog &p) override { prog = &p; QueueCheck::setup(p); }
};
static C20 c; static Reg reg(&c);
