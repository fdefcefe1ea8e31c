// The proxy library with its entry points renamed, so that the rest of the process keeps its own allocator.
#define _GNU_SOURCE
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <umf.h>
#define PROXY_LIB_USES_SCALABLE_POOL 1
#include "base_alloc_linear.h"
#include "utils_common.h"
#include "utils_concurrency.h"
#include "utils_load_library.h"
#include "utils_log.h"
#define malloc px_malloc
#define calloc px_calloc
#define realloc px_realloc
#define free px_free
#define aligned_alloc px_aligned_alloc
#define malloc_usable_size px_usable
#include "proxy_lib.c"
