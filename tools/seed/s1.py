from mk import seed
DJ="src/pool/pool_disjoint.c"
POOL=r'''
#include "demo.h"
#include <umf/pools/pool_disjoint.h>
static umf_memory_pool_handle_t mkpool(umf_memory_provider_handle_t prov, size_t slab, size_t maxp, size_t cap, size_t minb, umf_disjoint_pool_shared_limits_handle_t l) {
  umf_disjoint_pool_params_handle_t p; CHECK(!umfDisjointPoolParamsCreate(&p));
  umfDisjointPoolParamsSetSlabMinSize(p, slab); umfDisjointPoolParamsSetMaxPoolableSize(p, maxp); umfDisjointPoolParamsSetCapacity(p, cap); umfDisjointPoolParamsSetMinBucketSize(p, minb);
  if (l) umfDisjointPoolParamsSetSharedLimits(p, l);
  umf_memory_pool_handle_t h; CHECK(!umfPoolCreate(umfDisjointPoolOps(), prov, p, 0, &h)); umfDisjointPoolParamsDestroy(p); return h; }
'''
seed("c01-align-slack","C01",[(DJ,"aligned_size = size + alignment - 1;","""aligned_size = size + alignment -
                       utils_max(disjoint_pool->provider_min_page_size, 1);""")],
 "an aligned request above the page size whose size class is one and a half powers of two, and enough live blocks to reach a chunk at an odd offset",
 "the aligned block runs past its chunk into the next live block", POOL+r'''
int main(void){ umf_memory_provider_handle_t prov=dp_provider(); umf_memory_pool_handle_t h=mkpool(prov,1<<20,1<<20,4,8,NULL); char*b[16]; 
 for(int i=0;i<16;i++){ b[i]=umfPoolAlignedMalloc(h,2048,8192); CHECK(b[i]); CHECK((uintptr_t)b[i]%8192==0); memset(b[i],i+1,2048); for(int j=0;j<i;j++) CHECK(b[i]+2048<=b[j]||b[j]+2048<=b[i]); }
 for(int i=0;i<16;i++) CHECK(umfPoolMallocUsableSize(h,b[i])>=2048&&umfPoolMallocUsableSize(h,b[i])<=(1<<20));
 for(int i=0;i<16;i++) umfPoolFree(h,b[i]); umfPoolDestroy(h); umfMemoryProviderDestroy(prov); return 0; }
''')
seed("c03-budget-drift","C03",[(DJ,"            uint64_t size_to_sub = bucket_slab_alloc_size(bucket);","            uint64_t size_to_sub = bucket->size;")],
 "a shared limit, and repeated emptying and reuse of a slab that is larger than its chunks",
 "the shared budget leaks on every reuse of a pooled slab, so pooling stops although nothing is pooled", POOL+r'''
int main(void){ umf_memory_provider_handle_t prov=dp_provider(); umf_disjoint_pool_shared_limits_handle_t l=umfDisjointPoolSharedLimitsCreate(4*65536); umf_memory_pool_handle_t h=mkpool(prov,65536,65536,4,8,l);
 for(int i=0;i<20;i++){ void*p=umfPoolMalloc(h,1024); CHECK(p); umfPoolFree(h,p); CHECK(DP.allocs==1); CHECK(DP.live==65536); }
 umfPoolDestroy(h); umfDisjointPoolSharedLimitsDestroy(l); umfMemoryProviderDestroy(prov); return 0; }
''')
seed("c02-unlocked-slab-creation","C02",[(DJ,"""    slab_t *slab = create_slab(bucket);
    if (slab == NULL) {
        LOG_ERR("create_slab failed!")
        return NULL;
    }

    umf_result_t res = pool_register_slab(bucket->pool, slab);
    if (res != UMF_RESULT_SUCCESS) {
        LOG_ERR("slab_reg failed!")
        destroy_slab(slab);
        return NULL;
    }
""","""    // do not block other threads while the provider is working
    utils_mutex_unlock(&bucket->bucket_lock);
    slab_t *slab = create_slab(bucket);
    if (slab == NULL) {
        LOG_ERR("create_slab failed!")
        utils_mutex_lock(&bucket->bucket_lock);
        return NULL;
    }

    umf_result_t res = pool_register_slab(bucket->pool, slab);
    utils_mutex_lock(&bucket->bucket_lock);
    if (res != UMF_RESULT_SUCCESS) {
        LOG_ERR("slab_reg failed!")
        destroy_slab(slab);
        return NULL;
    }

    if (bucket->available_slabs != NULL &&
        slab_has_avail(bucket->available_slabs->val)) {
        // another thread was faster, use its slab
        destroy_slab(slab);
        return bucket->available_slabs->val;
    }
""")],
 "two threads that need a new slab of one size class at the same time",
 "the losing slab is given back to the provider but stays registered: later frees near it use released bookkeeping", POOL+r'''
static umf_memory_pool_handle_t h; static volatile int done; static void*q; static int armed; static pthread_t th;
static void*other(void*a){ q=umfPoolMalloc(h,1024); __atomic_store_n(&done,1,__ATOMIC_SEQ_CST); return NULL; }
static umf_result_t my_alloc(void*x,size_t s,size_t a,void**o){ umf_result_t r; if(armed){ armed=0; pthread_create(&th,NULL,other,NULL); for(int i=0;i<300&&!__atomic_load_n(&done,__ATOMIC_SEQ_CST);i++) usleep(1000);} 
  static pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); r=dp_alloc(x,s,a,o); pthread_mutex_unlock(&m); return r; }
int main(void){ umf_memory_provider_ops_t o=dp_ops(); o.alloc=my_alloc; umf_memory_provider_handle_t prov; CHECK(!umfMemoryProviderCreate(&o,NULL,&prov)); h=mkpool(prov,65536,65536,4,8,NULL);
 armed=1; char*p=umfPoolMalloc(h,1024); pthread_join(th,NULL); CHECK(p&&q);
 // a block above the pooled sizes goes straight to the provider and must be handed back on free
 void*slots[4]; size_t live=DP.live; for(int i=0;i<4;i++){ slots[i]=umfPoolMalloc(h,65537); CHECK(slots[i]); }
 CHECK(DP.live==live+4*65537); for(int i=0;i<4;i++){ CHECK(umfPoolMallocUsableSize(h,slots[i])==65537); CHECK(umfPoolFree(h,slots[i])==UMF_RESULT_SUCCESS); } CHECK(DP.live==live);
 umfPoolFree(h,p); umfPoolFree(h,q); umfPoolDestroy(h); CHECK(DP.live==0); umfMemoryProviderDestroy(prov); return 0; }
'''.replace('#include "demo.h"','#include <unistd.h>\n#include "demo.h"'))
CR="src/critnib/critnib.c"
s=open("/repo/"+CR).read()
i=s.index("critnib_find_le(struct critnib *c"); j=s.index("} while (wrs1 + DELETED_LIFE <= wrs2);", i)
k=s.rindex("\n",0,s.rindex("\n",0,j)); 
seed("c13-grace-off-by-one","C13",[(CR,s[i:j]+"} while (wrs1 + DELETED_LIFE <= wrs2);",s[i:j]+"} while (wrs1 + DELETED_LIFE < wrs2);")],
 "a search stalled while exactly as many removals happen as removed nodes stay unused, followed by their reuse",
 "the search returns an entry that was never nearest (or a recycled one)", r'''
// Interleavings are forced by running the reader and the writer as two threads that hand over at hooked atomic operations.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#include <semaphore.h>
#include "utils_concurrency.h"
static __thread int me; // 1 reader, 2 writer
static int rstall, rn, wstall; static sem_t go_r, go_w; static int reader_stalled, writer_gone;
static void load_ptr(void**p, void**o){ utils_atomic_load_acquire_ptr(p,o); if(me==1 && rn++==rstall){ rstall=-1; reader_stalled=1; sem_post(&go_w); sem_wait(&go_r); } }
static uint64_t inc(uint64_t*p){ uint64_t r=utils_atomic_increment_u64(p); if(me==2 && wstall){ wstall=0; sem_post(&go_r); sem_wait(&go_w); } return r; }
#define utils_atomic_load_acquire_ptr load_ptr
#define utils_atomic_increment_u64 inc
#include "/repo/src/critnib/critnib.c"
static critnib *c; static int removes; static uintptr_t v;
static void*reader(void*a){ me=1; sem_wait(&go_r); v=(uintptr_t)critnib_find_le(c,0x17); if(!reader_stalled) sem_post(&go_w); return NULL; }
static void*writer(void*a){ me=2; wstall=1; critnib_remove(c,0x15);
  for(int i=1;i<removes;i++){ critnib_insert(c,0x900000+i,(void*)2,0); critnib_remove(c,0x900000+i); }
  for(int i=0;i<8;i++) critnib_insert(c,0x100+i*0x1000,(void*)(uintptr_t)(0x100+i*0x1000),0);
  sem_post(&go_r); return NULL; }
int main(void){ for(removes=1;removes<40;removes++) for(int at=0;at<4;at++){ c=critnib_new(); sem_init(&go_r,0,0); sem_init(&go_w,0,0);
   critnib_insert(c,0x10,(void*)0x10,0); critnib_insert(c,0x15,(void*)0x15,0);
   rstall=at; rn=0; reader_stalled=0; pthread_t r,w; pthread_create(&r,NULL,reader,NULL); pthread_create(&w,NULL,writer,NULL); pthread_join(r,NULL); pthread_join(w,NULL);
   if(v!=0x10&&v!=0x15){ fprintf(stderr,"removes %d stall %d: found %lx\n",removes,at,(long)v); _exit(1);} critnib_delete(c);} return 0; }
''')
