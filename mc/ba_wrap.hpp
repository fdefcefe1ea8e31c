// Replacement of UMF's internal metadata allocator (link-time wrapped) with a
// checked one: leaks, bad frees and use-after-free are visible, and every
// request can be made to fail.
#pragma once
#include <cstddef>
extern "C" {
size_t mc_ba_live(void);       // outstanding blocks
size_t mc_ba_pools(void);      // outstanding fixed-size pools
void mc_ba_faults(int on);     // let mc_fault() decide each request
unsigned long mc_ba_requests(void);
void mc_ba_dump(void);         // mc_note() every outstanding block
// rewinds the arena when only the blocks of the first call are live
void mc_ba_rewind(void);
void mc_mutex_faults(int on);
}
