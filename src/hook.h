// Control block of the allocator every library variant with "hook" uses
#pragma once
#include <stdint.h>
#include <stddef.h>
#define HOOK_MAXFAIL 8
struct Hook {
  uint64_t count;            // allocations requested since reset
  uint64_t fail[HOOK_MAXFAIL]; unsigned nfail; uint64_t fail_from; // 1-based indices that fail; every one from fail_from on (0: none)
  uint64_t failed;           // how many were refused
  int64_t live;              // blocks allocated since reset and not yet released
  uint64_t live_bytes, refuse_above; // requests larger than refuse_above are refused (0: no limit)
  char err[200];             // double release and the like
  int arena; uint8_t*base; size_t cap,used; // arena: deterministic addresses and contents
  uint8_t*rel; size_t rel_len,rel_cap; int rel_over; // log of released blocks: address offset, size, contents
  uint64_t releases;
  void (*reset)(void); void (*unlog)(void);
  int (*leak)(size_t*size); // 1 and the size of one live block
  void* (*alloc)(size_t); void (*release)(void*); // the hooked malloc and free
};
