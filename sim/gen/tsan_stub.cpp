// Lets instrumented objects run natively: the code generators share their objects with the simulator.
#include <stddef.h>
#include <stdint.h>
#include <atomic>

extern "C" {
#define V1(n) void n(void*) {}
#define RW(k) V1(__tsan_##k##1) V1(__tsan_##k##2) V1(__tsan_##k##4) V1(__tsan_##k##8) V1(__tsan_##k##16)
RW(read) RW(write) RW(unaligned_read) RW(unaligned_write) RW(volatile_read) RW(volatile_write)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void**) {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_read_range(void*, size_t) {}
void __tsan_write_range(void*, size_t) {}
#define AT(N, T)                                                                                                       \
	T __tsan_atomic##N##_load(const volatile T* a, int) { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }               \
	void __tsan_atomic##N##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }               \
	T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }     \
	T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }     \
	T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }     \
	T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }     \
	T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }       \
	T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }     \
	int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int)                                 \
	{                                                                                                                  \
		return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
	}                                                                                                                  \
	int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int)                                   \
	{                                                                                                                  \
		return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                            \
	}                                                                                                                  \
	T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int)                                       \
	{                                                                                                                  \
		__atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                  \
		return c;                                                                                                      \
	}
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
