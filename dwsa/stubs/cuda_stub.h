/* Declarations that let clang parse the CUDA sources without a CUDA SDK. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#define __global__ __attribute__((global))
#define __device__ __attribute__((device))
#define __host__ __attribute__((host))
#define __constant__ __attribute__((constant))
#define __shared__ __attribute__((shared))
#define __launch_bounds__(...) __attribute__((launch_bounds(__VA_ARGS__)))
struct dim3 { unsigned int x, y, z; dim3(unsigned int a=1, unsigned int b=1, unsigned int c=1); };
struct dw_uint3 { unsigned int x, y, z; };
extern const dw_uint3 threadIdx, blockIdx; extern const dim3 blockDim, gridDim;
extern const int warpSize;
typedef struct CUstream_st *cudaStream_t;
typedef struct CUevent_st *cudaEvent_t;
typedef int cudaError_t; typedef cudaError_t cudaError;
enum { cudaSuccess = 0 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
enum { cudaStreamNonBlocking = 1, cudaEventDisableTiming = 2 };
extern "C" {
cudaError_t cudaConfigureCall(dim3, dim3, size_t = 0, cudaStream_t = 0);
unsigned __cudaPushCallConfiguration(dim3, dim3, size_t = 0, void * = 0);
cudaError_t cudaLaunchKernel(const void *, dim3, dim3, void **, size_t, cudaStream_t);
cudaError_t cudaSetDevice(int); cudaError_t cudaGetDevice(int*);
cudaError_t cudaPeekAtLastError(); cudaError_t cudaGetLastError(); cudaError_t cudaDeviceSynchronize();
const char *cudaGetErrorString(cudaError_t);
cudaError_t cudaStreamCreate(cudaStream_t *); cudaError_t cudaStreamCreateWithFlags(cudaStream_t *, unsigned);
cudaError_t cudaStreamDestroy(cudaStream_t); cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaStreamWaitEvent(cudaStream_t, cudaEvent_t, unsigned = 0);
cudaError_t cudaEventCreate(cudaEvent_t *); cudaError_t cudaEventCreateWithFlags(cudaEvent_t *, unsigned);
cudaError_t cudaEventDestroy(cudaEvent_t); cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = 0); cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaMemcpy(void *, const void *, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyAsync(void *, const void *, size_t, cudaMemcpyKind, cudaStream_t = 0);
cudaError_t cudaMemset(void *, int, size_t); cudaError_t cudaMemsetAsync(void *, int, size_t, cudaStream_t = 0);
cudaError_t cudaMalloc(void **, size_t); cudaError_t cudaFree(void *);
}
template <class T> cudaError_t cudaMemcpyToSymbol(const T &, const void *, size_t, size_t = 0, cudaMemcpyKind = cudaMemcpyHostToDevice);
__device__ float atomicAdd(float *, float); __device__ double atomicAdd(double *, double);
__device__ void __syncthreads(); __device__ void __threadfence();
#include <utility>
#include <algorithm>
