// Host stand-in for the CUDA compiler's vocabulary: enough to compile and run the library's CUDA branches on the host.
#pragma once
#define __CUDACC__ 12
#define __host__
#define __device__
#define __global__
unsigned atomicExch(unsigned* address, unsigned value);
