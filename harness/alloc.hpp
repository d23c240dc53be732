/* Allocator monitor: the library's allocation calls are redirected here (by
 * objcopy --redefine-sym), so that live blocks can be counted and failures injected. */
#pragma once
#include <cstddef>
#include <cstdint>
struct AllocMon {
	bool track = false;	/* record live blocks */
	size_t live = 0, bytes = 0, peak = 0;
	uint64_t calls = 0;
	int64_t fail_in = -1;	/* fail the n-th allocation from now (0 = next); -1: never */
	bool fail_all = false;	/* and every later one */
	uint64_t fired = 0;
	int fill = -1;		/* byte that fresh memory is filled with */
	uint64_t bad_free = 0;	/* free() of a block that the library did not allocate while tracking */
	void start();		/* forget everything, start tracking */
	void stop();
};
extern AllocMon g_mon;
void user_free(void *p);	/* release a block that the library handed to its user */
