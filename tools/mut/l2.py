K="src/critnib/critnib.c"
M("cn-le-range","C13",K,'''        return (k->key <= key) ? k : NULL;''','''        return (k->key < key || !key) ? k : NULL;''')
M("cn-shift-mask","C13",K,'''    if ((key ^ n->path) >> (n->shift) & ~NIB) {
        /*''','''    if (((key ^ n->path) >> (n->shift)) > 0xffff) {
        /*''')
M("cn-le-left","C13",K,'''    for (; nib > 0; nib--) {''','''    for (; nib > 1; nib--) {''')
M("cn-ge-last","C13",K,'''    for (; nib < NIB; nib++) {''','''    for (; nib + 1 < NIB; nib++) {''')
M("cn-pred-noret","C13",K,'''        struct critnib_leaf *k = find_predecessor(m);
        if (k) {
            return k;
        }
    }

    return NULL;
}

/*
 * critnib_find_le''','''        return find_predecessor(m);
    }

    return NULL;
}

/*
 * critnib_find_le''')
M("cn-node-reuse-now","C13",K,'''    c->pending_del_nodes[del] = n;
''','''    free_node(c, n);
''')
M("cn-leaf-reuse-now","C13",K,'''    c->pending_del_leaves[del] = k;
''','''    free_leaf(c, k);
''')
M("cn-insert-enomem-leaf","C13 C09",K,'''    if (!m) {
        free_leaf(c, to_leaf(kn));
''','''    if (!m) {
''')
M("cn-insert-path","C13",K,'''    m->path = key & path_mask(sh);''','''    m->path = key;''')
M("cn-insert-publish","C13",K,'''    m->child[slice_index(key, sh)] = kn;
    m->child[slice_index(path, sh)] = n;
    m->shift = sh;
    m->path = key & path_mask(sh);
    utils_atomic_store_release_ptr((void **)parent, m);
''','''    m->child[slice_index(key, sh)] = kn;
    m->shift = sh;
    m->path = key & path_mask(sh);
    utils_atomic_store_release_ptr((void **)parent, m);
    m->child[slice_index(path, sh)] = n;
''')
M("cn-get-retry","C13",K,'''        res = (n && k->key == key) ? k->value : NULL;
        utils_atomic_load_acquire_u64(&c->remove_count, &wrs2);
    } while (wrs1 + DELETED_LIFE <= wrs2);''','''        res = (n && k->key == key) ? k->value : NULL;
        utils_atomic_load_acquire_u64(&c->remove_count, &wrs2);
    } while (wrs1 + DELETED_LIFE < wrs2);''')
M("cn-find-value-order","C13",K,'''        if (k) {
            _rkey = k->key;
            _rvalue = k->value;
        }
        utils_atomic_load_acquire_u64(&c->remove_count, &wrs2);''','''        utils_atomic_load_acquire_u64(&c->remove_count, &wrs2);
        if (k) {
            _rkey = k->key;
            _rvalue = k->value;
        }''')
M("cn-find-lt-zero","C13",K,'''        if (!key) {
            return 0; /* no key is <0 */
        }
''','')
M("cn-find-gt-max","C13",K,'''        if (key == (uintptr_t)-1) {
            return 0; /* no key is >(unsigned)∞ */
        }
''','')
M("cn-iter-min","C13",K,'''if ((n->path | ~path_mask(n->shift)) < min) {''','''if (n->path < min) {''')
M("cn-iter-stop","C13",K,'''    if (n->path > max) {
        return 1;
    }''','''    if (n->path >= max) {
        return 1;
    }''')
M("cn-remove-count-skip","C13",K,'''        (utils_atomic_increment_u64(&c->remove_count) - 1) % DELETED_LIFE;''','''        (utils_atomic_increment_u64(&c->remove_count) - 1) % (DELETED_LIFE / 2);''')
M("cn-remove-nocollapse","C13",K,'''            if (ochild != -1) {
                goto del_leaf;
            }

            ochild = i;''','''            ochild = i;''')
M("cn-delete-leaf","C13 C09",K,'''        umf_ba_global_free(c->pending_del_leaves[i]);''','')
M("cn-update","C13",K,'''            to_leaf(n)->value = value;
            utils_mutex_unlock(&c->mutex);
            return 0;''','''            utils_mutex_unlock(&c->mutex);
            return 0;''')
M("cn-insert-noleaf-unlock","C13 C09",K,'''    if (!k) {
        utils_mutex_unlock(&c->mutex);

        return ENOMEM;''','''    if (!k) {
        return ENOMEM;''')
T="src/provider/provider_tracking.c"
M("tr-children-add","C05 C07",T,'''        if (parent_value) {
            parent_value->n_children++;''','''        if (parent_value && parent_value->pool != pool) {
            parent_value->n_children++;''')
M("tr-exceed-parent","C05 C07",T,'''            if (((uintptr_t)ptr + size) > (rkey + rsize)) {''','''            if (size > rsize) {''')
M("tr-addlevel-stop","C05",T,'''    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children);

    umf_result = umfMemoryTrackerAddAtLevel''','''    } while (found && ((uintptr_t)ptr < rkey + rsize) && rvalue->n_children > 1);

    umf_result = umfMemoryTrackerAddAtLevel''')
M("tr-add-unlock","C05 C09",T,'''                umf_result = UMF_RESULT_ERROR_OUT_OF_RESOURCES;
                goto unlock;''','''                return UMF_RESULT_ERROR_OUT_OF_RESOURCES;''')
M("tr-remove-pool","C05 C07",T,'''    if (value->pool != pool) {
        LOG_ERR("pointer %p is tracked for another pool %p", ptr,
                (void *)value->pool);
        utils_write_unlock(&hTracker->mapsLock);
        return UMF_RESULT_ERROR_INVALID_ARGUMENT;
    }
''','''    (void)pool;
''')
M("tr-remove-children","C05 C07",T,'''            (void *)parent_value->pool, (void *)parent_key, parent_value->size);
        parent_value->n_children--;
    }''','''            (void *)parent_value->pool, (void *)parent_key, parent_value->size);
    }''')
M("tr-lookup-size","C05",T,'''        if (found && (uintptr_t)ptr < rkey + rvalue->size) {
            top_most_key''','''        if (found && (uintptr_t)ptr <= rkey + rvalue->size) {
            top_most_key''')
M("tr-lookup-nolock","C06",T,'''    utils_read_lock(&TRACKER->mapsLock);

    do {''','''    do {''','''    pAllocInfo->base = (void *)top_most_key;
    pAllocInfo->baseSize = top_most_value->size;
    pAllocInfo->pool = top_most_value->pool;

    utils_read_unlock(&TRACKER->mapsLock);
''','''    pAllocInfo->base = (void *)top_most_key;
    pAllocInfo->baseSize = top_most_value->size;
    pAllocInfo->pool = top_most_value->pool;
''','''    if (!top_most_value) {
        utils_read_unlock(&TRACKER->mapsLock);''','''    if (!top_most_value) {''')
M("tr-lookup-early-unlock","C06",T,'''    pAllocInfo->base = (void *)top_most_key;
    pAllocInfo->baseSize = top_most_value->size;
    pAllocInfo->pool = top_most_value->pool;

    utils_read_unlock(&TRACKER->mapsLock);
''','''    utils_read_unlock(&TRACKER->mapsLock);
    pAllocInfo->base = (void *)top_most_key;
    pAllocInfo->baseSize = top_most_value->size;
    pAllocInfo->pool = top_most_value->pool;
''')
M("tr-remove-early-unlock","C06",T,'''    assert(level < MAX_LEVELS_OF_ALLOC_SEGMENT_MAP);
    value = critnib_remove(hTracker->alloc_segments_map[level], (uintptr_t)ptr);
    assert(value);
''','''    utils_write_unlock(&hTracker->mapsLock);
    value = critnib_remove(hTracker->alloc_segments_map[level], (uintptr_t)ptr);
    utils_write_lock(&hTracker->mapsLock);
    assert(value);
''')
M("tr-split-mutex","C06",T,'''    dropCachedIpcHandle(provider, ptr);

    ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
                                           firstSize);''','''    dropCachedIpcHandle(provider, ptr);

    // the value is in our hands
    utils_write_lock(&provider->hTracker->mapsLock);
    value->size = firstSize;
    utils_write_unlock(&provider->hTracker->mapsLock);

    ret = umfMemoryProviderAllocationSplit(provider->hUpstream, ptr, totalSize,
                                           firstSize);''')
M("tr-split-level","C07 C05",T,'''    ret = umfMemoryTrackerAddAtLevel(provider->hTracker, level, provider->pool,
                                     highPtr, secondSize, parent_key,
                                     parent_value);''','''    ret = umfMemoryTrackerAddAtLevel(provider->hTracker, level, provider->pool,
                                     highPtr, secondSize, parent_key,
                                     NULL);''')
M("tr-split-noipcdrop","C07 C10",T,'''    dropCachedIpcHandle(provider, ptr);

    ret = umfMemoryProviderAllocationSplit''','''    ret = umfMemoryProviderAllocationSplit''')
M("tr-merge-highdrop","C07 C10",T,'''    dropCachedIpcHandle(provider, highPtr);
''','')
M("tr-merge-children","C07",T,'''    lowValue->n_children = lno + hno;''','''    lowValue->n_children = lno;''')
M("tr-merge-parentdec","C07 C05",T,'''    if (lowParent) {
        // two children of the parent region became one
        lowParent->n_children--;
    }
''','')
M("tr-merge-parentcheck","C07",T,'''    if (lowParent != highParent) {
        LOG_FATAL("merged regions do not belong to the same memory region");
        ret = UMF_RESULT_ERROR_INVALID_ARGUMENT;
        goto err_assert;
    }
''','')
M("tr-merge-leak","C07 C09",T,'''    umf_ba_free(provider->hTracker->alloc_info_allocator, erasedhighValue);

    utils_mutex_unlock''','''    utils_mutex_unlock''')
M("tr-free-size-back","C05 C07 C09",T,'''        if (umfMemoryTrackerAdd(p->hTracker, p->pool, ptr, tracked_size) !=''','''        if (umfMemoryTrackerAdd(p->hTracker, p->pool, ptr, size) !=''')
M("tr-free-noipcdrop","C10",T,'''    dropCachedIpcHandle(p, ptr);

    ret = umfMemoryProviderFree(p->hUpstream, ptr, size);
    if''','''    ret = umfMemoryProviderFree(p->hUpstream, ptr, size);
    dropCachedIpcHandle(p, ptr);
    if''')
M("tr-ipc-race-put","C11",T,'''                ret = umfMemoryProviderPutIPCHandle(
                    p->hUpstream, cache_value->providerIpcData);
                umf_ba_global_free(cache_value);
                if (ret != UMF_RESULT_SUCCESS) {
                    LOG_ERR("upstream provider failed to put IPC handle");
                    return ret;
                }
                if (insRes''','''                umf_ba_global_free(cache_value);
                if (insRes''')
M("tr-ipc-race-retry","C11",T,'''            if (insRes == 0) {
                cached = 1;
            } else {''','''            cached = 1;
            if (insRes == ENOMEM) {''')
M("tr-ipc-handleid","C10",T,'''    ipcUmfData->handle_id = cache_value->handle_id;

    return ret;''','''    ipcUmfData->handle_id = IPC_HANDLE_ID;

    return ret;''')
M("tr-evict-order","C11 C10",T,'''    umf_result_t ret =
        umfMemoryTrackerRemoveIpcSegment(p->hTracker, value->mapped_base_ptr);
    if (ret != UMF_RESULT_SUCCESS) {
        // DO NOT return an error here, because the tracking provider
        // cannot change behaviour of the upstream provider.
        LOG_ERR("failed to remove the region from the IPC tracker, ptr=%p, "
                "size=%zu, ret = %d",
                value->mapped_base_ptr, value->mapped_size, ret);
    }
    ret = umfMemoryProviderCloseIPCHandle(
        p->hUpstream, value->mapped_base_ptr, value->mapped_size);''','''    umf_result_t ret = umfMemoryProviderCloseIPCHandle(
        p->hUpstream, value->mapped_base_ptr, value->mapped_size);
    umfMemoryTrackerRemoveIpcSegment(p->hTracker, value->mapped_base_ptr);''')
M("tr-open-fail-close","C10 C09",T,'''        if (umfMemoryProviderCloseIPCHandle(p->hUpstream, mapped_ptr,
                                            bufferSize)) {
            LOG_ERR("upstream provider failed to close IPC handle, "
                    "ptr=%p, size=%zu",
                    mapped_ptr, bufferSize);
        }
        return ret;''','''        return ret;''')
M("tr-open-fail-release","C10 C09",T,'''        // nobody is going to close this handle
        umfIpcHandleMappedCacheRelease(cache_entry);''','')
M("tr-open-recheck","C11",T,'''        utils_atomic_load_acquire_ptr(&(cache_entry->mapped_base_ptr),
                                      (void **)&mapped_ptr);
        if (mapped_ptr == NULL) {
            ret =''','''        if (mapped_ptr == NULL) {
            ret =''')
M("tr-open-publish-early","C11",T,'''    cache_entry->mapped_size = bufferSize;
    utils_atomic_store_release_ptr(&(cache_entry->mapped_base_ptr), mapped_ptr);
    return''','''    return''','''    assert(mapped_ptr != NULL);

    // Today''','''    assert(mapped_ptr != NULL);
    cache_entry->mapped_size = bufferSize;
    utils_atomic_store_release_ptr(&(cache_entry->mapped_base_ptr), mapped_ptr);

    // Today''')
M("tr-key-pid","C10",T,'''    key.remote_pid = ipcUmfData->pid;''','''    key.remote_pid = utils_getpid();''')
M("tr-create-leak","C09",T,'''        LOG_ERR("failed to create the cache of opened IPC handles");
        critnib_delete(params.ipcCache);''','''        LOG_ERR("failed to create the cache of opened IPC handles");''')
M("tr-trackercreate-leak","C09 C22",T,'''err_destroy_ipc_info_allocator:
    umf_ba_destroy(handle->ipc_info_allocator);''','''err_destroy_ipc_info_allocator:''')
I="src/ipc_cache.c"
M("ic-lru-append","C10",I,'''        DL_PREPEND(cache->global->lru_list, entry);
        cache->global->cur_size += 1;''','''        DL_APPEND(cache->global->lru_list, entry);
        cache->global->cur_size += 1;''')
M("ic-size-dec","C10",I,'''            HASH_DEL(*(entry->hash_table), entry);
            cache->global->cur_size -= 1;''','''            HASH_DEL(*(entry->hash_table), entry);''')
M("ic-own-evict","C10 C11",I,'''            entry->eviction_cb(&entry->hash_key.key, &entry->value);''','''            cache->eviction_cb(&entry->hash_key.key, &entry->value);''')
M("ic-full-gt","C10",I,'''global->cur_size >= global->max_size;''','''global->cur_size > global->max_size;''')
M("ic-stale-keep","C10",I,'''            memcmp(&entry->hash_key.key, key, sizeof(*key)) == 0) {''','''            is_full && memcmp(&entry->hash_key.key, key, sizeof(*key)) == 0) {''')
M("ic-refcheck","C10 C11",I,'''        if (ref_count != 0) {
            continue;
        }''','''        if (ref_count != 0 && !is_full) {
            continue;
        }''')
M("ic-ref-unlocked","C11",I,'''    if (ret == UMF_RESULT_SUCCESS) {
        utils_atomic_increment_u64(&entry->ref_count);
        *retEntry = &entry->value;
    }

    utils_mutex_unlock(&(cache->global->cache_lock));
''','''    utils_mutex_unlock(&(cache->global->cache_lock));

    if (ret == UMF_RESULT_SUCCESS) {
        utils_atomic_increment_u64(&entry->ref_count);
        *retEntry = &entry->value;
    }
''')
M("ic-evict-unlocked","C11",I,'''            entry->eviction_cb(&entry->hash_key.key, &entry->value);''','''            utils_mutex_unlock(&(cache->global->cache_lock));
            entry->eviction_cb(&entry->hash_key.key, &entry->value);
            utils_mutex_lock(&(cache->global->cache_lock));''')
M("ic-destroy-mutex","C09",I,'''        cache->eviction_cb(&entry->hash_key.key, &entry->value);
        utils_mutex_destroy_not_free''','''        cache->eviction_cb(&entry->hash_key.key, &entry->value);
        (void)''')
M("ic-destroy-close","C10",I,'''        cache->eviction_cb(&entry->hash_key.key, &entry->value);
        utils''','''        if (entry->ref_count == 0) {
            cache->eviction_cb(&entry->hash_key.key, &entry->value);
        }
        utils''')
M("ic-notouch","C10",I,'''        DL_DELETE(cache->global->lru_list, entry);
        // add the entry to the head of the list
        DL_PREPEND(cache->global->lru_list, entry);''','''        if (cache->global->max_size > 2) {
        DL_DELETE(cache->global->lru_list, entry);
        // add the entry to the head of the list
        DL_PREPEND(cache->global->lru_list, entry);
        }''')
P="src/ipc.c"
M("ip-offset","C10",P,'''    ipcData->offset = (uintptr_t)ptr - (uintptr_t)allocInfo.base;''','''    ipcData->offset = ((uintptr_t)ptr - (uintptr_t)allocInfo.base) & ~(uintptr_t)63;''')
M("ip-base","C10",P,'''    ipcData->base = allocInfo.base;''','''    ipcData->base = (void *)ptr;''')
M("ip-err-free","C10 C09",P,'''        LOG_ERR("failed to get IPC handle.");
        umf_ba_global_free(ipcData);''','''        LOG_ERR("failed to get IPC handle.");''')
M("ip-close-ptr","C10",P,'''    return umfMemoryProviderCloseIPCHandle(ipcInfo.provider, ipcInfo.base,''','''    return umfMemoryProviderCloseIPCHandle(ipcInfo.provider, ptr,''')
D="src/pool/pool_disjoint.c"
M("dj-bitmap-rest","C01",D,'''            ((1ULL << (num_chunks_total % CHUNK_BITMAP_SIZE)) - 1);''','''            ((1ULL << (num_chunks_total % CHUNK_BITMAP_SIZE)));''')
M("dj-words","C01",D,'''        (num_chunks_total + CHUNK_BITMAP_SIZE - 1) / CHUNK_BITMAP_SIZE;''','''        num_chunks_total / CHUNK_BITMAP_SIZE + (num_chunks_total < CHUNK_BITMAP_SIZE);''')
M("dj-maxchunks","C01",D,'''        utils_max(bucket_slab_min_size(bucket) / bucket->size, 1);''','''        utils_max((bucket_slab_min_size(bucket) + bucket->size - 1) / bucket->size, 1);''')
M("dj-slaballoc","C01",D,'''    return utils_max(bucket->size, bucket_slab_min_size(bucket));''','''    return bucket_slab_min_size(bucket) ? bucket_slab_min_size(bucket) : bucket->size;''')
M("dj-findslab-end","C01 C02",D,'''    if (slab != NULL && ptr >= slab_get_end(slab)) {''','''    if (slab != NULL && ptr > slab_get_end(slab)) {''')
M("dj-findslab-nolock","C02",D,'''    utils_read_lock(&pool->known_slabs_lock);
    slab_t *slab =
        (slab_t *)critnib_find_le(pool->known_slabs, (uintptr_t)ptr);
    if (slab != NULL && ptr >= slab_get_end(slab)) {
        // this slab belongs to some other memory, so it can be destroyed
        // by another thread as soon as the lock is released
        slab = NULL;
    }
    utils_read_unlock(&pool->known_slabs_lock);''','''    slab_t *slab =
        (slab_t *)critnib_find_le(pool->known_slabs, (uintptr_t)ptr);
    if (slab != NULL && ptr >= slab_get_end(slab)) {
        slab = NULL;
    }''')
M("dj-destroy-before-unreg","C02",D,'''            pool_unregister_slab(bucket->pool, slab_it->val);
            DL_DELETE(bucket->available_slabs, slab_it);
            assert(bucket->available_slabs_num > 0);
            bucket->available_slabs_num--;
            destroy_slab(slab_it->val);''','''            DL_DELETE(bucket->available_slabs, slab_it);
            assert(bucket->available_slabs_num > 0);
            bucket->available_slabs_num--;
            slab_t s = *slab_it->val;
            destroy_slab(slab_it->val);
            pool_unregister_slab(bucket->pool, &s);''')
M("dj-destroy-budget","C03",D,'''    if (bucket->chunked_slabs_in_pool > 0) {
        utils''','''    if (bucket->chunked_slabs_in_pool > 1) {
        utils''')
M("dj-canpool-lt","C03",D,'''    if (bucket_max_pooled_slabs(bucket) >= new_free_slabs_in_bucket) {''','''    if (bucket_max_pooled_slabs(bucket) >= bucket->chunked_slabs_in_pool) {''')
M("dj-canpool-undo","C03",D,'''            uint64_t old = utils_fetch_and_sub_u64(
                &bucket->shared_limits->total_size, size_to_add);
            (void)old;
            assert(old >= size_to_add);''','')
M("dj-limit-prev","C03",D,'''        if (previous_size + size_to_add <= bucket->shared_limits->max_size) {''','''        if (previous_size <= bucket->shared_limits->max_size) {''')
M("dj-getavail-sub","C03",D,'''            uint64_t size_to_sub = bucket_slab_alloc_size(bucket);''','''            uint64_t size_to_sub = bucket->size;''')
M("dj-maxpooled-cut","C03",D,'''    if (bucket->size <= bucket_chunk_cut_off(bucket)) {''','''    if (bucket->size < bucket_chunk_cut_off(bucket)) {''')
M("dj-idx-half","C01",D,'''        (bool)((size - 1) & ((uint64_t)(1) << (position - 1)));''','''        (bool)(size & ((uint64_t)(1) << (position - 1)));''')
M("dj-idx-half2","C01",D,'''        (bool)((size - 1) & ((uint64_t)(1) << (position - 1)));''','''        (bool)((size - 2) & ((uint64_t)(1) << (position - 1)));''')
M("dj-align-le","C01",D,'''    if (alignment <= disjoint_pool->provider_min_page_size) {''','''    if (alignment <= 2 * disjoint_pool->provider_min_page_size) {''')
M("dj-align-pad","C01",D,'''        aligned_size = size + alignment - 1;
    }''','''        aligned_size = size + alignment / 2;
    }''')
M("dj-align-overflow","C01",D,'''    if (size > SIZE_MAX - (alignment - 1)) {
        LOG_ERR("requested size is too big");
        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        return NULL;
    }
''','')
M("dj-align-provider","C01",D,'''        umf_result_t ret = umfMemoryProviderAlloc(disjoint_pool->provider, size,
                                                  alignment, &ptr);''','''        umf_result_t ret = umfMemoryProviderAlloc(disjoint_pool->provider, aligned_size,
                                                  0, &ptr);
        ptr = (void *)ALIGN_UP_SAFE((size_t)ptr, alignment);''')
M("dj-usable","C01",D,'''    return slab->bucket->size - diff;''','''    return slab->bucket->size;''')
M("dj-register-fail","C09",D,'''        LOG_ERR("slab_reg failed!")
        destroy_slab(slab);
        return NULL;''','''        LOG_ERR("slab_reg failed!")
        return NULL;''')
M("dj-oom-unlock","C01 C09",D,'''    ptr = bucket_get_free_chunk(bucket, &from_pool);

    if (ptr == NULL) {
        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        utils_mutex_unlock(&bucket->bucket_lock);
        return NULL;
    }

    if (disjoint_pool''','''    ptr = bucket_get_free_chunk(bucket, &from_pool);

    if (ptr == NULL) {
        TLS_last_allocation_error = UMF_RESULT_ERROR_OUT_OF_HOST_MEMORY;
        return NULL;
    }

    if (disjoint_pool''')
M("dj-free-lock","C02",D,'''    bucket_free_chunk(bucket, unaligned_ptr, slab, &to_pool);

    if (disjoint_pool->params.pool_trace > 1) {
        bucket->free_count++;
    }

    utils_mutex_unlock(&bucket->bucket_lock);
''','''    utils_mutex_unlock(&bucket->bucket_lock);
    bucket_free_chunk(bucket, unaligned_ptr, slab, &to_pool);
''')
M("dj-unavail-order","C01",D,'''    if (slab_get_num_free_chunks(slab) == 1) {''','''    if (slab_get_num_free_chunks(slab) == 1 && slab->num_chunks_total > 1) {''')
M("dj-init-err","C09",D,'''err_free_known_slabs:
    utils_rwlock''','''err_free_known_slabs:
    disjoint_pool->provider = NULL;
    goto err_free_disjoint_pool;
    utils_rwlock''')
M("dj-cutoff","C01",D,'''    if (size > pool->params.max_poolable_size || size > CutOff) {''','''    if (size > pool->params.max_poolable_size) {''')
