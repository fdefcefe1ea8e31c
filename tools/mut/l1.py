C="src/coarse/coarse.c"
M("coarse-split-free","C08",C,'''    if (!block->used) {
        LOG_ERR("block is not allocated");
        goto err_mutex_unlock;
    }

    // check if block can''','''    // check if block can''')
M("coarse-readd-nomerge","C08",C,'''    // merge with prev and/or next block if they are unused and have continuous data
    node = free_block_merge_with_prev(coarse, node);
    node = free_block_merge_with_next(coarse, node);

    free_blocks_add_or_defer(coarse, get_node_block(node));
}''','''    node = free_block_merge_with_next(coarse, node);

    free_blocks_add_or_defer(coarse, get_node_block(node));
}''')
M("coarse-fastest-nopad","C08",C,'''    size_t new_size = size + alignment;

    switch''','''    size_t new_size = size + (alignment <= 4096 ? 0 : alignment);

    switch''')
M("coarse-free-size","C08",C,'''if (bytes > 0 && bytes != block->size) {''','''if (bytes > block->size) {''')
M("coarse-merge-total","C08",C,'''    if (low_block->size + high_block->size != totalSize) {''','''    if (low_block->size + high_block->size < totalSize) {''')
M("coarse-align-div","C08",C,'''        alignment = ALIGN_UP_SAFE(alignment, coarse->page_size);
    }''','''        alignment = 0;
    }''')
M("coarse-merge-usedcheck","C08",C,'''    bool same_used = ((block1->used == used) && (block2->used == used));''','''    bool same_used = (block1->used == used);''')
M("coarse-rmfirst-prev","C08",C,'''    if (node->next) {
        node->next->prev = NULL;
    }

    head_node->head = node->next;''','''    head_node->head = node->next;''')
M("coarse-addfail-free","C08 C09",C,'''        if (coarse->cb.free) {
            coarse->cb.free(coarse->provider, *resultPtr, size);
        }
        goto err_unlock;''','''        goto err_unlock;''')
M("coarse-result-ptr-left","C08",C,'''    *resultPtr = NULL;

    if (!coarse->cb.alloc) {''','''    if (!coarse->cb.alloc) {''')
M("coarse-undo-size","C08",C,'''        undo_provider_split(coarse, ptr, totalSize, firstSize);
        goto''','''        goto''')
M("coarse-alloc-cb-align","C08 C15",C,'''coarse->cb.alloc(coarse->provider, size, alignment, resultPtr);''','''coarse->cb.alloc(coarse->provider, size, coarse->page_size, resultPtr);''')
O="src/provider/provider_os_memory.c"
M("os-split-offset","C14",O,'''    void *new_value = (void *)((uintptr_t)value + firstSize);''','''    void *new_value = (void *)((uintptr_t)value + totalSize - firstSize);''')
M("os-merge-low","C14",O,'''        critnib_remove(os_provider->fd_offset_map, (uintptr_t)highPtr);
    if (value''','''        critnib_remove(os_provider->fd_offset_map, (uintptr_t)lowPtr);
    if (value''')
M("os-peak-race","C14",O,'''    while (allocated > peak && !utils_compare_exchange_u64(
                                   (uint64_t *)&os_provider->stats.peak_memory,
                                   &peak, (uint64_t *)&allocated)) {''','''    while (allocated > peak + size && !utils_compare_exchange_u64(
                                   (uint64_t *)&os_provider->stats.peak_memory,
                                   &peak, (uint64_t *)&allocated)) {''')
M("os-tail-round","C14",O,'''            tail = (tail + page_size) & ~(page_size - 1);''','''            tail = tail & ~(page_size - 1);''')
M("os-head-off","C14",O,'''            utils_munmap(ptr, head_len);''','''            if (fd <= 0) utils_munmap(ptr, head_len);''')
M("os-tail-shared","C14",O,'''        if (tail_len > 0) {''','''        if (tail_len > page_size) {''')
M("os-fd-size-first","C14",O,'''        *fd_size += extended_length;''','''        *fd_size += length;''')
M("os-bind-fail-stats","C14 C16",O,'''                    membindFini(os_provider, &membind);
                    goto err_unmap;''','''                    membindFini(os_provider, &membind);
                    return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;''')
M("os-free-fail-stats","C14",O,'''    errno = 0;
    int ret = utils_munmap(ptr, size);
    if (ret) {''','''    errno = 0;
    utils_fetch_and_sub_u64((uint64_t *)&os_provider->stats.allocated_memory,
                            size);
    int ret = utils_munmap(ptr, size);
    if (ret) {''','''    // TODO: Change it to memory_order_relaxed when we will have a proper wrapper
    utils_fetch_and_sub_u64((uint64_t *)&os_provider->stats.allocated_memory,
                            size);

    return''','''    return''')
M("os-part-aligned","C16",O,'''(s / provider->part_size) %''','''(s / ALIGN_UP(provider->part_size, page_size)) %''')
M("os-bind-border-or","C16",O,'''        // Update the bitmap to include the current node's target
        hwloc_bitmap_or(membind->bitmap, membind->bitmap,
                        provider->partitions[membind->node].target);

        // If''','''        if (bind)
        hwloc_bitmap_or(membind->bitmap, membind->bitmap,
                        provider->partitions[membind->node].target);

        // If''')
M("os-bind-rest-ge","C16",O,'''if (rest >= provider->partitions_weight_sum) {''','''if (rest > provider->partitions_weight_sum) {''')
M("os-bind-leftover","C16",O,'''    if (membind->rest == 0 && membind->leftover_bind == 0) {''','''    if (membind->leftover_bind == 0) {''')
M("os-alloc-sum","C16",O,'''utils_fetch_and_add_u64(&provider->alloc_sum, size);''','''utils_fetch_and_add_u64(&provider->alloc_sum, ALIGN_UP(size, provider->part_size));''')
M("os-next-size","C16",O,'''        membind.node %= provider->nodeset_len;
        membind.bitmap = provider->nodeset[membind.node];
        membind.bind_size = ALIGN_UP(provider->part_size, membind.page_size);''','''        membind.node %= provider->nodeset_len;
        membind.bitmap = provider->nodeset[membind.node];
        membind.bind_size = provider->part_size < membind.page_size ? membind.page_size : provider->part_size / membind.page_size * membind.page_size;''')
M("os-flags-strict","C16",O,'''    if (dedicated_node_bind) {
        flags |= HWLOC_MEMBIND_STRICT;
    }''','''''')
M("os-shmopen-unlink","C14",O,'''        (void)utils_shm_unlink(os_ipc_data->shm_name);
    } else {''','''    } else {''')
M("os-get-ipc-size","C14",O,'''    os_ipc_data->size = size;''','''    os_ipc_data->size = ALIGN_UP(size, 65536);''')
F="src/provider/provider_file_memory.c"
M("file-offset-pad","C15",F,'''    file_provider->offset_fd = new_offset_fd + size;''','''    file_provider->offset_fd += size;''')
M("file-ext-noround","C15",F,'''    if (file_provider->size_mmap - file_provider->offset_mmap < size) {''','''    if (file_provider->size_mmap - file_provider->offset_mmap <= size) {''')
M("file-second-check","C15",F,'''    if (new_offset_mmap > file_provider->size_mmap ||
        file_provider->size_mmap - new_offset_mmap < size) {''','''    if (file_provider->size_mmap - new_offset_mmap < size) {''')
M("file-fallocate-off","C15",F,'''utils_fallocate(fd, size_fd, new_size_fd - size_fd)''','''utils_fallocate(fd, aligned_offset_fd, new_size_fd - size_fd)''')
M("file-grow-cond","C15",F,'''    if (aligned_offset_fd + extended_size > size_fd) {''','''    if (aligned_offset_fd + size > size_fd) {''')
M("file-mmaps-size","C15",F,'''                             (void *)(uintptr_t)extended_size, 0 /* update */);''','''                             (void *)(uintptr_t)size, 0 /* update */);''')
M("file-finalize-key","C15",F,'''        critnib_remove(file_provider->mmaps, rkey);
        key = rkey;''','''        key = rkey + (size_t)rvalue;''')
G="src/base_alloc/base_alloc_global.c"
M("ba-align-slack","C12",G,'''        size += alignment;
    }''','''        size += alignment - ALLOC_METADATA_SIZE;
    }''')
M("ba-align-slack2","C12",G,'''        size += alignment;
    }''','''        size += alignment - 2 * ALLOC_METADATA_SIZE;
    }''')
M("ba-usable","C12",G,'''        *usable_size = stored_size - ptr_offset_from_original;''','''        *usable_size = stored_size - ALLOC_METADATA_SIZE;''')
M("ba-align-eq","C12",G,'''    if (alignment <= ALLOC_METADATA_SIZE) {
        user''','''    if (alignment <= 2 * ALLOC_METADATA_SIZE) {
        user''')
M("ba-free-class","C12",G,'''    int ac_index = size_to_idx(total_size);''','''    int ac_index = size_to_idx(total_size - ALLOC_METADATA_SIZE);''')
B="src/base_alloc/base_alloc.c"
M("ba-unlock-mmap","C12",B,'''        umf_ba_next_pool_t *new_pool =
            (umf_ba_next_pool_t *)ba_os_alloc_annotated(
                pool->metadata.pool_size);
        if (!new_pool) {
            utils_mutex_unlock(&pool->metadata.free_lock);
            return NULL;
        }''','''        utils_mutex_unlock(&pool->metadata.free_lock);
        umf_ba_next_pool_t *new_pool =
            (umf_ba_next_pool_t *)ba_os_alloc_annotated(
                pool->metadata.pool_size);
        if (!new_pool) {
            return NULL;
        }
        utils_mutex_lock(&pool->metadata.free_lock);''')
M("ba-destroy-first","C12",B,'''        ba_os_free(current_pool, size);
    }''','''        if (next_pool) ba_os_free(current_pool, size);
    }''')
K="src/ctl/ctl.c"
M("ctl-extra-offset","C18",K,'''        *name_offset = node_name - parse_str;
        if (n''','''        if (n''','''            // if a subtree occurs, the subtree handler should be called
            break;''','''            *name_offset = node_name - parse_str;
            break;''')
M("ctl-idx-base","C18",K,'''strtol(node_name, &endptr, 0)''','''strtol(node_name, &endptr, 10)''')
M("ctl-idx-order","C18",K,'''LL_PREPEND(*indexes, index_entry);''','''LL_APPEND(*indexes, index_entry);''')
M("ctl-idx-name","C18",K,'''        if (index_entry) {
            index_entry->name = n->name;
        }''','''        if (index_entry) {
            index_entry->name = node_name;
        }''')
M("ctl-missing-arg","C18",K,'''        if (arg_sep == NULL) {
            goto error_parsing;
        }''','''        if (arg_sep == NULL) {
            break;
        }''')
M("ctl-type","C18",K,'''        (n->type != CTL_NODE_LEAF && n->type != CTL_NODE_SUBTREE) ||
''','')
T="src/pool/pool_scalable.c"
M("tbb-err-reset","C23",T,'''    tbb_memory_pool_t *pool_data = (tbb_memory_pool_t *)pool;
    TLS_last_allocation_error = UMF_RESULT_SUCCESS;
    void *new_ptr''','''    tbb_memory_pool_t *pool_data = (tbb_memory_pool_t *)pool;
    void *new_ptr''')
M("tbb-calloc-ovf","C23",T,'''size != 0 && num > SIZE_MAX / size''','''num > UINT32_MAX && size > SIZE_MAX / num''')
M("tbb-memset","C23",T,'''    memset(ptr, 0, csize);''','''    memset(ptr, 0, csize & ~(size_t)3);''')
M("tbb-rawfree-size","C23 C04",T,'''umfMemoryProviderFree(pool->mem_provider, ptr, bytes)''','''umfMemoryProviderFree(pool->mem_provider, ptr, 0)''')
M("tbb-free-err","C23",T,'''    if (TLS_last_free_error != UMF_RESULT_SUCCESS) {
        return TLS_last_free_error;
    }

''','')
M("tbb-raw-err","C23",T,'''        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
''','''        TLS_last_allocation_error = ret;
''')
M("tbb-gran","C23",T,'''        policy.keep_all_memory = scalable_params->keep_all_memory;''','')
V="src/ravl/ravl.c"
M("ravl-single","C21",V,'''    if (z == NULL || ravl_node_rank_difference(z) == 2) {''','''    if (z == NULL || ravl_node_rank_difference(z) >= 1) {''')
M("ravl-promote","C21",V,'''        ravl_node_promote(z);
        ravl_node_demote(n);''','''        ravl_node_demote(n);''')
M("ravl-demote-y","C21",V,'''        ravl_rotate(ravl, n);
        ravl_node_demote(y);''','''        ravl_rotate(ravl, n);''')
P="src/proxy_lib/proxy_lib.c"
M("proxy-realloc-max","C20",P,'''    if (new_size > max_size) {
        new_size = max_size;
    }
''','')
M("proxy-leak-ovf","C20",P,'''    if (!Base_alloc_leak || size > SIZE_MAX - alignment) {''','''    if (!Base_alloc_leak) {''')
M("proxy-usable-reset","C20",P,'''        size_t size = umfPoolMallocUsableSize(Proxy_pool, ptr);
        was_called_from_umfPool = 0;''','''        size_t size = umfPoolMallocUsableSize(Proxy_pool, ptr);''')
M("proxy-free-otherpool","C20",P,'''    if (Proxy_pool && (umfPoolByPtr(ptr) == Proxy_pool)) {
        if (umfPoolFree''','''    if (Proxy_pool && umfPoolByPtr(ptr)) {
        if (umfPoolFree''')
M("proxy-calloc-leak","C20",P,'''    if (size && nmemb > SIZE_MAX / size) {
        return NULL;
    }
    // umf''','''    // umf''')
M("proxy-realloc-sys","C20",P,'''        void *new_ptr = umfPoolRealloc(Proxy_pool, ptr, size);
        was_called_from_umfPool = 0;''','''        void *new_ptr = size < Size_threshold_value ? System_realloc(ptr, size) : umfPoolRealloc(Proxy_pool, ptr, size);
        was_called_from_umfPool = 0;''')
S="src/memspace.c"
M("ms-cmp-trunc","C17",S,'''    if (entryA->property < entryB->property) {
        return 1;
    } else if (entryA->property > entryB->property) {
        return -1;
    } else {
        return 0;
    }''','''    return (int)(entryB->property - entryA->property);''')
M("ms-add-count","C17 C09",S,'''    umf_result_t ret = umfMemtargetClone(hMemtarget, &hMemtargetClone);
    if (ret != UMF_RESULT_SUCCESS) {
        umf_ba_global_free(newNodes);
        return ret;
    }
    newNodes[hMemspace->size++] = hMemtargetClone;''','''    size_t last = hMemspace->size++;
    umf_result_t ret = umfMemtargetClone(hMemtarget, &hMemtargetClone);
    if (ret != UMF_RESULT_SUCCESS) {
        umf_ba_global_free(newNodes);
        return ret;
    }
    newNodes[last] = hMemtargetClone;''')
M("ms-lat-sum","C17","src/memspaces/memspace_lowest_latency.c",'''        if (latency < bestLatency) {''','''        if (latency <= bestLatency && (nodes[nodeIdx] == initiator || latency < bestLatency || nodeIdx == 1)) {''')
M("ms-filter-dup","C17",S,'''            if (uniqueBestNodes[bestTargetIdx] == target) {
                break;
            }''','''            if (bestTargetIdx + 1 == numUniqueBestNodes && uniqueBestNodes[bestTargetIdx] == target) {
                break;
            }''')
