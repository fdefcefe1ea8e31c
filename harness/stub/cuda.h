// The part of the CUDA driver interface the provider uses (cuda.h is not installed here).
#ifndef CUDA_STUB_H
#define CUDA_STUB_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum cudaError_enum {
    CUDA_SUCCESS = 0, CUDA_ERROR_INVALID_VALUE = 1, CUDA_ERROR_OUT_OF_MEMORY = 2, CUDA_ERROR_NOT_INITIALIZED = 3,
    CUDA_ERROR_DEINITIALIZED = 4, CUDA_ERROR_NO_DEVICE = 100, CUDA_ERROR_INVALID_DEVICE = 101, CUDA_ERROR_INVALID_CONTEXT = 201,
    CUDA_ERROR_INVALID_HANDLE = 400, CUDA_ERROR_NOT_SUPPORTED = 801, CUDA_ERROR_UNKNOWN = 999
} CUresult;
typedef struct CUctx_st *CUcontext;
typedef int CUdevice;
typedef unsigned long long CUdeviceptr;
#define CU_IPC_HANDLE_SIZE 64
typedef struct CUipcMemHandle_st { char reserved[CU_IPC_HANDLE_SIZE]; } CUipcMemHandle;
typedef enum { CU_MEM_ATTACH_GLOBAL = 1, CU_MEM_ATTACH_HOST = 2, CU_MEM_ATTACH_SINGLE = 4 } CUmemAttach_flags;
typedef enum { CU_IPC_MEM_LAZY_ENABLE_PEER_ACCESS = 1 } CUipcMem_flags;
typedef enum { CU_MEM_LOCATION_TYPE_INVALID = 0, CU_MEM_LOCATION_TYPE_DEVICE = 1 } CUmemLocationType;
typedef enum { CU_MEM_ALLOCATION_TYPE_INVALID = 0, CU_MEM_ALLOCATION_TYPE_PINNED = 1 } CUmemAllocationType;
typedef enum { CU_MEM_ALLOC_GRANULARITY_MINIMUM = 0, CU_MEM_ALLOC_GRANULARITY_RECOMMENDED = 1 } CUmemAllocationGranularity_flags;
typedef struct { CUmemLocationType type; int id; } CUmemLocation;
typedef struct {
    CUmemAllocationType type;
    int requestedHandleTypes;
    CUmemLocation location;
    void *win32HandleMetaData;
    struct { unsigned char compressionType, gpuDirectRDMACapable; unsigned short usage; unsigned char reserved[4]; } allocFlags;
} CUmemAllocationProp;
#ifdef __cplusplus
}
#endif
#endif
