B="src/base_alloc/base_alloc_linear.c"
M("bl-lock-alloc","C12",B,'''    assert(pool->metadata.size_left >= aligned_size);
    void *ptr = pool->metadata.data_ptr;
    pool->metadata.data_ptr += aligned_size;''','''    assert(pool->metadata.size_left >= aligned_size);
    void *ptr = pool->metadata.data_ptr;
    pool->metadata.data_ptr += size;''')
M("bl-free-active","C12",B,'''            if ((next_pool->pool_n_allocs == 0) &&
                next_pool != pool->next_pool) {''','''            if ((next_pool->pool_n_allocs == 0) && prev_pool) {''')
M("bl-free-main","C12",B,'''        if ((pool->metadata.pool_n_allocs == 0) && pool->next_pool &&
            (pool''','''        if ((pool->metadata.pool_n_allocs == 0) &&
            (pool''')
M("bl-oldpool-leak","C12",B,'''        if (old_pool && old_pool->pool_n_allocs == 0) {''','''        if (old_pool && old_pool->pool_n_allocs == 0 && !old_pool->next_pool) {''')
M("bl-contains-end","C12",B,'''            (char *)ptr < ((char *)(pool)) + pool_size);''','''            (char *)ptr <= ((char *)(pool)) + pool_size);''')
M("bl-destroy-next","C12 C22",B,'''    umf_ba_next_linear_pool_t *next_pool = pool->next_pool;
    umf_ba_next_linear_pool_t *prev_pool = NULL;
    while (next_pool) {
        if (pool_contains_ptr(next_pool, next_pool->pool_size, next_pool->data,''','''    umf_ba_next_linear_pool_t *next_pool = pool->next_pool;
    umf_ba_next_linear_pool_t *prev_pool = NULL;
    while (next_pool) {
        if (pool_contains_ptr(next_pool, MINIMUM_LINEAR_POOL_SIZE, next_pool->data,''')
M("bl-nolock","C12",B,'''    utils_mutex_lock(&pool->metadata.lock);
    if (pool->metadata.size_left < aligned_size) {''','''    if (pool->metadata.size_left < aligned_size) {
    utils_mutex_lock(&pool->metadata.lock);''','''        pool->next_pool = new_pool;
        _DEBUG_EXECUTE(pool->metadata.n_pools++);
    }
''','''        pool->next_pool = new_pool;
        _DEBUG_EXECUTE(pool->metadata.n_pools++);
    } else {
        utils_mutex_lock(&pool->metadata.lock);
    }
''')
Q="src/memory_pool.c"
M("mp-init-fail-provider","C09 C19",Q,'''err_lock_init:
    if (!(flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING)) {
        umfMemoryProviderDestroy(pool->provider);
    }''','''err_lock_init:''')
M("mp-destroy-order","C19 C05",Q,'''    hPool->ops.finalize(hPool->pool_priv);

    umf_memory_provider_handle_t hUpstreamProvider = NULL;
    umfPoolGetMemoryProvider(hPool, &hUpstreamProvider);

    if (!(hPool->flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING)) {
        // Destroy tracking provider.
        umfMemoryProviderDestroy(hPool->provider);
    }
''','''    umf_memory_provider_handle_t hUpstreamProvider = NULL;
    umfPoolGetMemoryProvider(hPool, &hUpstreamProvider);

    if (!(hPool->flags & UMF_POOL_CREATE_FLAG_DISABLE_TRACKING)) {
        // Destroy tracking provider.
        umfMemoryProviderDestroy(hPool->provider);
    }
    hPool->ops.finalize(hPool->pool_priv);
''')
M("mp-own-flag","C19",Q,'''    if (hPool->flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER) {''','''    if (hPool->flags == UMF_POOL_CREATE_FLAG_OWN_PROVIDER) {''')
M("mp-own-on-fail","C19 C09",Q,'''err_provider_create:
    umf_ba_global_free(pool);''','''err_provider_create:
    if (flags & UMF_POOL_CREATE_FLAG_OWN_PROVIDER) {
        umfMemoryProviderDestroy(provider);
    }
    umf_ba_global_free(pool);''')
M("mp-tag-old","C19",Q,'''    if (oldTag) {
        *oldTag = hPool->tag;
    }
    hPool->tag = tag;''','''    hPool->tag = tag;
    if (oldTag) {
        *oldTag = hPool->tag;
    }''')
M("mp-tag-nolock","C19",Q,'''    utils_mutex_lock(&hPool->lock);
    if (oldTag) {
        *oldTag = hPool->tag;
    }
    hPool->tag = tag;
    utils_mutex_unlock(&hPool->lock);''','''    if (oldTag) {
        *oldTag = hPool->tag;
    }
    utils_mutex_lock(&hPool->lock);
    hPool->tag = tag;
    utils_mutex_unlock(&hPool->lock);''')
M("mp-free-null","C19",Q,'''    UMF_CHECK((hPool != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
    return hPool->ops.free(hPool->pool_priv, ptr);''','''    UMF_CHECK((hPool != NULL), UMF_RESULT_ERROR_INVALID_ARGUMENT);
    hPool->ops.free(hPool->pool_priv, ptr);
    return UMF_RESULT_SUCCESS;''')
M("mp-getprovider","C19",Q,'''        umfTrackingMemoryProviderGetUpstreamProvider(
            umfMemoryProviderGetPriv(hPool->provider), hProvider);''','''        *hProvider = hPool->provider;''')
M("mp-calloc-swap","C19",Q,'''    return hPool->ops.calloc(hPool->pool_priv, num, size);''','''    return hPool->ops.calloc(hPool->pool_priv, size, num);''')
M("mp-ctl-null","C19 C18",Q,'''    if (NULL == pool->ops.ctl) {
        pool->ops.ctl = umfDefaultCtlPoolHandle;
    }
''','')
M("mp-lock-leak","C22 C09",Q,'''    utils_mutex_destroy_not_free(&hPool->lock);

    LOG_INFO("Memory pool destroyed''','''    LOG_INFO("Memory pool destroyed''')
V="src/memory_provider.c"
M("pv-ext-validate","C19",V,'''    return (ext->allocation_split && ext->allocation_merge) ||
           (!ext''','''    return (ext->allocation_merge) ||
           (!ext''')
M("pv-ipc-validate","C19",V,'''            ipc->close_ipc_handle) ||''','''            true) ||''')
M("pv-split-eq","C19",V,'''    UMF_CHECK((firstSize < totalSize), UMF_RESULT_ERROR_INVALID_ARGUMENT);''','''    UMF_CHECK((firstSize <= totalSize), UMF_RESULT_ERROR_INVALID_ARGUMENT);''')
M("pv-merge-order","C19",V,'''    UMF_CHECK(((uintptr_t)lowPtr < (uintptr_t)highPtr),
              UMF_RESULT_ERROR_INVALID_ARGUMENT);
''','')
M("pv-merge-size","C19",V,'''    UMF_CHECK(((uintptr_t)highPtr - (uintptr_t)lowPtr < totalSize),''','''    UMF_CHECK(((uintptr_t)highPtr - (uintptr_t)lowPtr <= totalSize),''')
M("pv-lastfail-free","C19",V,'''    umf_result_t res = hProvider->ops.free(hProvider->provider_priv, ptr, size);
    checkErrorAndSetLastProvider(res, hProvider);''','''    umf_result_t res = hProvider->ops.free(hProvider->provider_priv, ptr, size);''')
M("pv-lastfail-clear","C19",V,'''    if (result != UMF_RESULT_SUCCESS) {
        *umfGetLastFailedMemoryProviderPtr() = hProvider;
    }''','''    *umfGetLastFailedMemoryProviderPtr() = result != UMF_RESULT_SUCCESS ? hProvider : NULL;''')
M("pv-initfail-leak","C09 C19",V,'''    if (ret != UMF_RESULT_SUCCESS) {
        umf_ba_global_free(provider);
        return ret;
    }

    provider->provider_priv''','''    if (ret != UMF_RESULT_SUCCESS) {
        return ret;
    }

    provider->provider_priv''')
M("pv-initfail-out","C19 C09",V,'''    provider->ops = *ops;
''','''    provider->ops = *ops;
    *hProvider = provider;
''')
M("pv-mandatory","C19",V,'''           ops->get_last_native_error && ops->get_name;''','''           ops->get_last_native_error;''')
M("pv-purge-default","C19",V,'''    if (!ops->ext.purge_force) {
        ops->ext.purge_force = umfDefaultPurgeForce;
    }''','''    if (!ops->ext.purge_force) {
        ops->ext.purge_force = ops->ext.purge_lazy;
    }''')
L="src/libumf.c"
M("li-refcount","C22",L,'''    if (umfRefCount > 0 && --umfRefCount == 0) {''','''    if (--umfRefCount == 0) {''')
M("li-fail-count","C22",L,'''    if (ret == 0) {
        umfRefCount++;''','''    umfRefCount++;
    if (ret == 0) {''')
M("li-noinc","C22",L,'''    utils_mutex_lock(&umfInitMutex);
    int ret = 0;
    if (umfRefCount == 0) {
        ret = umfCreateGlobalState();
    }
    if (ret == 0) {''','''    int ret = 0;
    if (umfRefCount == 0) {
        utils_mutex_lock(&umfInitMutex);
        ret = umfCreateGlobalState();
    } else {
        utils_mutex_lock(&umfInitMutex);
    }
    if (ret == 0) {''')
M("li-memspace","C22",L,'''        umfMemspaceHighestCapacityDestroy();
''','')
M("li-topology","C22",L,'''        umfDestroyTopology();
''','')
M("li-ctl-once","C22",L,'''        registered = 1;
''','')
M("li-tracker-null","C22",L,'''        umf_memory_tracker_handle_t t = TRACKER;
        TRACKER = NULL;''','''        umf_memory_tracker_handle_t t = TRACKER;''')
M("li-ipc-fail","C22 C09",L,'''        LOG_ERR("Failed to initialize IPC cache");
        umfMemoryTrackerDestroy(tracker);''','''        LOG_ERR("Failed to initialize IPC cache");''')
M("li-ipc-teardown","C22",L,'''        umfIpcCacheGlobalTearDown();
''','')
M("li-ze-fini","C24",L,'''        fini_ze_global_state();
''','')
O="src/topology.c"
M("to-loadfail","C22",O,'''        LOG_ERR("Failed to initialize topology");
        hwloc_topology_destroy(topology);
        topology = NULL;
    }
}''','''        LOG_ERR("Failed to initialize topology");
        hwloc_topology_destroy(topology);
    }
}''')
M("to-once","C22",O,'''    memcpy(&topology_initialized, &is_initialized,
           sizeof(topology_initialized));''','''    (void)is_initialized;''')
M("mh-once","C22",'src/memspaces/memspace_host_all.c','''    memcpy(&UMF_MEMSPACE_HOST_ALL_INITIALIZED, &is_initialized,
           sizeof(UMF_MEMSPACE_HOST_ALL_INITIALIZED));''','''    (void)is_initialized;''')
N="src/memtargets/memtarget_numa.c"
M("mt-single","C17",N,'''        numNodesProvider = 1;''','''        numNodesProvider = numTargets;''')
M("mt-worst","C17",N,'''    case MEMATTR_TYPE_LATENCY:
        return SIZE_MAX;''','''    case MEMATTR_TYPE_LATENCY:
        return 0;''')
M("mt-attr-swap","C17",N,'''        hwlocMemAttrType = HWLOC_MEMATTR_ID_BANDWIDTH;''','''        hwlocMemAttrType = HWLOC_MEMATTR_ID_LATENCY;''')
M("mt-initiator","C17",N,'''    struct hwloc_location initiator = {.location.cpuset = srcNumaNode->cpuset,''','''    struct hwloc_location initiator = {.location.cpuset = dstNumaNode->cpuset,''')
M("mt-capacity-logical","C17",N,'''    hwloc_obj_t numaNode = hwloc_get_numanode_obj_by_os_index(
        topology, ((struct numa_memtarget_t *)memTarget)->physical_id);''','''    hwloc_obj_t numaNode = hwloc_get_obj_by_type(topology, HWLOC_OBJ_NUMANODE,
        ((struct numa_memtarget_t *)memTarget)->physical_id);''')
M("mt-default-mode","C17",N,'''            numa_mode = UMF_NUMA_MODE_DEFAULT;
        } else {
            numa_mode = UMF_NUMA_MODE_BIND;''','''            numa_mode = UMF_NUMA_MODE_DEFAULT;
        } else {
            numa_mode = numTargets > 1 ? UMF_NUMA_MODE_PREFERRED : UMF_NUMA_MODE_BIND;''')
M("mt-partlen","C17",N,'''            partitions_len = (unsigned)policy->ops.split.part_len;''','''            partitions_len = (unsigned)numTargets;''')
M("mt-partsize","C17",N,'''    ret = umfOsMemoryProviderParamsSetPartSize(params, part_size);
    if (ret != UMF_RESULT_SUCCESS) {
        LOG_ERR("Setting part size failed");
        goto destroy_provider_params;
    }
''','')
M("mt-listleak","C09 C17",N,'''destroy_numa_list:
    umf_ba_global_free(numa_list);
''','''destroy_numa_list:
''')
M("mt-compare","C17",N,'''    *result = numaTarget->physical_id != otherNumaTarget->physical_id;''','''    *result = (numaTarget->physical_id & 15) != (otherNumaTarget->physical_id & 15);''')
S="src/memspace.c"
M("ms-clone-err","C09",S,'''    while (i != 0) {
        i--;
        umfMemtargetDestroy(clone->nodes[i]);
    }''','')
M("ms-sort-trunc","C17",S,'''    if (entryA->property < entryB->property) {
        return 1;
    } else if (entryA->property > entryB->property) {
        return -1;
    } else {
        return 0;
    }''','''    return (int)(entryB->property - entryA->property);''')
M("ms-sort-leak","C09 C17",S,'''        if (ret != UMF_RESULT_SUCCESS) {
            umf_ba_global_free(entries);
            return ret;
        }''','''        if (ret != UMF_RESULT_SUCCESS) {
            return ret;
        }''')
Z="src/provider/provider_level_zero.c"
M("ze-relaxed","C24",Z,'''    return size > ze_provider->device_properties.maxMemAllocSize;''','''    return size >= ze_provider->device_properties.maxMemAllocSize;''')
M("ze-shared-relaxed","C24",Z,'''    case UMF_MEMORY_TYPE_SHARED: {
        ze_host_mem_alloc_desc_t host_desc = {
            .stype = ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC,
            .pNext = NULL,
            .flags = 0};
        ze_device_mem_alloc_desc_t dev_desc = {
            .stype = ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC,
            .pNext = use_relaxed_allocation(ze_provider, size)
                         ? &relaxed_device_allocation_desc
                         : NULL,''','''    case UMF_MEMORY_TYPE_SHARED: {
        ze_host_mem_alloc_desc_t host_desc = {
            .stype = ZE_STRUCTURE_TYPE_HOST_MEM_ALLOC_DESC,
            .pNext = NULL,
            .flags = 0};
        ze_device_mem_alloc_desc_t dev_desc = {
            .stype = ZE_STRUCTURE_TYPE_DEVICE_MEM_ALLOC_DESC,
            .pNext = NULL,''')
M("ze-resident-free","C24",Z,'''            (void)g_ze_ops.zeMemFree(ze_provider->context, *resultPtr);
            *resultPtr = NULL;''','''            *resultPtr = NULL;''')
M("ze-resident-first","C24",Z,'''            ze_provider->context, ze_provider->resident_device_handles[i],
            *resultPtr, size);''','''            ze_provider->context, ze_provider->resident_device_handles[0],
            *resultPtr, size);''')
M("ze-defer","C24",Z,'''        .freePolicy = ze_provider->freePolicyFlags};''','''        .freePolicy = ZE_DRIVER_MEMORY_FREE_POLICY_EXT_FLAG_BLOCKING_FREE};''')
M("ze-minpage-leak","C24",Z,'''    *min_page_size = properties.pageSize;

    ze_memory_provider_free(ze_provider, ptr, 1);

    return ze2umf_result(ze_result);''','''    if (ze_result != ZE_RESULT_SUCCESS) {
        return ze2umf_result(ze_result);
    }
    *min_page_size = properties.pageSize;

    ze_memory_provider_free(ze_provider, ptr, 1);

    return UMF_RESULT_SUCCESS;''')
M("ze-ipc-fdleak","C24",Z,'''    if (fd_local != -1) {
        (void)utils_close_fd(fd_local);
    }
    if (ze_result != ZE_RESULT_SUCCESS) {
        LOG_ERR("zeMemOpenIpcHandle() failed.");
        return ze2umf_result(ze_result);
    }
''','''    if (ze_result != ZE_RESULT_SUCCESS) {
        LOG_ERR("zeMemOpenIpcHandle() failed.");
        return ze2umf_result(ze_result);
    }
    if (fd_local != -1) {
        (void)utils_close_fd(fd_local);
    }
''')
M("ze-put-null","C24",Z,'''    if (g_ze_ops.zeMemPutIpcHandle == NULL) {''','''    if (g_ze_ops.zeMemPutIpcHandle == NULL && !ze_provider) {''')
M("ze-init-leak","C24 C09",Z,'''            LOG_ERR("Cannot get device properties");
            umf_ba_global_free(ze_provider);''','''            LOG_ERR("Cannot get device properties");''')
M("ze-native","C24",Z,'''    default:
        store_last_native_error(result);
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
}

static void init''','''    default:
        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
}

static void init''')
M("ze-ordinal-shared","C24",Z,'''            .flags = 0,
            .ordinal = ze_provider->device_ordinal};
        ze_result = g_ze_ops.zeMemAllocShared''','''            .flags = 0};
        ze_result = g_ze_ops.zeMemAllocShared''')
M("ze-res-copy","C24",Z,'''        for (uint32_t i = 0; i < ze_provider->resident_device_count; i++) {
            ze_provider->resident_device_handles[i] =
                ze_params->resident_device_handles[i];
        }''','''        ze_provider->resident_device_handles = ze_params->resident_device_handles;''')
F="src/provider/provider_fixed_memory.c"
M("fx-size-page","C08",F,'''                                  fixed_provider->size);
    if''','''                                  ALIGN_UP(fixed_provider->size, utils_get_page_size()));
    if''')
M("fx-purge-errno","C08",F,'''        return UMF_RESULT_ERROR_MEMORY_PROVIDER_SPECIFIC;
    }
    return UMF_RESULT_SUCCESS;
}

static const char *fixed_get_name''','''        return UMF_RESULT_SUCCESS;
    }
    return UMF_RESULT_SUCCESS;
}

static const char *fixed_get_name''')
M("fx-leak","C09 C08",F,'''err_coarse_delete:
    coarse_delete(fixed_provider->coarse);
''','''err_coarse_delete:
''')
