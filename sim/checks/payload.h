// Typed items in log and queue entries.
#pragma once
#include "common.h"
// a deterministic sequence of typed items for an entry
struct Item { int type; u64 v; int size, align; };
static inline Item item_of(u64 seed, int i) {
  u64 x = hash2(seed, (u64)i * 77 + 5);
  static const int sz[] = {1, 2, 4, 8, 8, 8, 4, 8, 0, 0};
  Item it{(int)(x % 10), x, 0, 1};
  it.size = sz[it.type]; it.align = it.size ? it.size : 1;
  if (it.type == 8) it.size = (int)((x >> 8) % 20) + 1;                // string with its end
  if (it.type == 9) { it.size = 4 + (int)((x >> 8) % 40); it.align = 1 << ((x >> 16) % 7); }
  return it;
}
static inline void item_str(const Item &it, char *b) { for (int i = 0; i + 1 < it.size; i++) b[i] = (char)('a' + (it.v >> (i % 50)) % 26); b[it.size - 1] = 0; }
// the same for the two families of functions; H: the handle
#define PFX(x) SPHLFlogEntry##x
namespace log_payload { typedef SPHLFLoggerHandle_t H;
#include "payload_body.h"
}
#undef PFX
#define PFX(x) SPHLFEntry##x
namespace queue_payload { typedef SPHLFEntryHandle_t H;
#include "payload_body.h"
}
#undef PFX
