/* What a CUDA toolkit would provide to device code (clang's builtins underneath) */
#define __global__ __attribute__((global))
#define __device__ __attribute__((device))
#define __constant__ __attribute__((constant))
#define __host__ __attribute__((host))
#define __shared__ __attribute__((shared))
#define __forceinline__ inline __attribute__((always_inline))
#define __noinline__ __attribute__((noinline))
#define SIM_SREG(name, reg)                                                                                                  \
	struct sim_##name {                                                                                                  \
		__declspec(property(get = gx)) unsigned x; __device__ static inline unsigned gx() { return __nvvm_read_ptx_sreg_##reg##_x(); } \
		__declspec(property(get = gy)) unsigned y; __device__ static inline unsigned gy() { return __nvvm_read_ptx_sreg_##reg##_y(); } \
		__declspec(property(get = gz)) unsigned z; __device__ static inline unsigned gz() { return __nvvm_read_ptx_sreg_##reg##_z(); } \
	};                                                                                                                   \
	extern const __device__ sim_##name name;
SIM_SREG(threadIdx, tid)
SIM_SREG(blockIdx, ctaid)
SIM_SREG(blockDim, ntid)
SIM_SREG(gridDim, nctaid)
template <class T> __device__ inline T min(T a, T b) { return b < a ? b : a; }
template <class T> __device__ inline T max(T a, T b) { return a < b ? b : a; }
template <class T> __device__ inline T __ldg(const T *p) { return *p; }
__device__ inline int __clz(int v) { return v ? __builtin_clz(v) : 32; }
__device__ inline int __clzll(long long v) { return v ? __builtin_clzll(v) : 64; }
__device__ inline int __popc(unsigned v) { return __builtin_popcount(v); }
__device__ inline int __popcll(unsigned long long v) { return __builtin_popcountll(v); }
__device__ inline int __ffs(int v) { return __builtin_ffs(v); }
__device__ inline unsigned __byte_perm(unsigned a, unsigned b, unsigned s) { unsigned r; asm("prmt.b32 %0, %1, %2, %3;" : "=r"(r) : "r"(a), "r"(b), "r"(s)); return r; }
__device__ inline unsigned __funnelshift_l(unsigned lo, unsigned hi, unsigned n) { unsigned r; asm("shf.l.wrap.b32 %0, %1, %2, %3;" : "=r"(r) : "r"(lo), "r"(hi), "r"(n)); return r; }
__device__ inline unsigned __funnelshift_r(unsigned lo, unsigned hi, unsigned n) { unsigned r; asm("shf.r.wrap.b32 %0, %1, %2, %3;" : "=r"(r) : "r"(lo), "r"(hi), "r"(n)); return r; }
