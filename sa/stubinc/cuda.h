/* declaration-only stand-in for the CUDA driver API header: lets the analysis compile provider_cuda.c */
#pragma once
#include <stddef.h>
typedef unsigned long long CUdeviceptr;
typedef int CUdevice;
typedef struct CUctx_st *CUcontext;
typedef enum cudaError_enum {
    CUDA_SUCCESS = 0,
    CUDA_ERROR_INVALID_VALUE = 1,
    CUDA_ERROR_OUT_OF_MEMORY = 2,
    CUDA_ERROR_NOT_INITIALIZED = 3,
    CUDA_ERROR_DEINITIALIZED = 4,
    CUDA_ERROR_INVALID_HANDLE = 400,
    CUDA_ERROR_UNKNOWN = 999
} CUresult;
typedef enum { CU_IPC_MEM_LAZY_ENABLE_PEER_ACCESS = 1 } CUipcMem_flags;
typedef enum { CU_MEM_ALLOCATION_TYPE_INVALID = 0, CU_MEM_ALLOCATION_TYPE_PINNED = 1 } CUmemAllocationType;
typedef enum { CU_MEM_LOCATION_TYPE_INVALID = 0, CU_MEM_LOCATION_TYPE_DEVICE = 1 } CUmemLocationType;
typedef enum { CU_MEM_ALLOC_GRANULARITY_MINIMUM = 0, CU_MEM_ALLOC_GRANULARITY_RECOMMENDED = 1 } CUmemAllocationGranularity_flags;
typedef enum { CU_MEM_HANDLE_TYPE_NONE = 0 } CUmemAllocationHandleType;
enum { CU_MEM_ATTACH_GLOBAL = 1, CU_MEM_ATTACH_HOST = 2, CU_MEM_ATTACH_SINGLE = 4 };
enum { CU_MEMHOSTALLOC_PORTABLE = 1, CU_MEMHOSTALLOC_DEVICEMAP = 2, CU_MEMHOSTALLOC_WRITECOMBINED = 4 };
typedef struct { CUmemLocationType type; int id; } CUmemLocation;
typedef struct {
    CUmemAllocationType type;
    CUmemAllocationHandleType requestedHandleTypes;
    CUmemLocation location;
    void *win32HandleMetaData;
    unsigned char reserved[32];
} CUmemAllocationProp;
typedef struct CUipcMemHandle_st { char reserved[64]; } CUipcMemHandle;
