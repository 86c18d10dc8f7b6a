// Own implementation of the ThreadSanitizer instrumentation interface: every
// instrumented access of the library is a possible preemption point.
#include "sim.h"
#include <atomic>
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { sim::access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { sim::access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { sim::access(p, (unsigned)n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { sim::access(p, (unsigned)n, true, PC); }
void __tsan_read1(void* p) { sim::access(p, 1, false, PC); }
void __tsan_write1(void* p) { sim::access(p, 1, true, PC); }
void __tsan_unaligned_read1(void* p) { sim::access(p, 1, false, PC); }
void __tsan_unaligned_write1(void* p) { sim::access(p, 1, true, PC); }
void __tsan_volatile_read1(void* p) { sim::access(p, 1, false, PC); }
void __tsan_volatile_write1(void* p) { sim::access(p, 1, true, PC); }
void __tsan_unaligned_volatile_read1(void* p) { sim::access(p, 1, false, PC); }
void __tsan_unaligned_volatile_write1(void* p) { sim::access(p, 1, true, PC); }
void __tsan_read_write1(void* p) { sim::access(p, 1, true, PC); }
void __tsan_unaligned_read_write1(void* p) { sim::access(p, 1, true, PC); }
void __tsan_read2(void* p) { sim::access(p, 2, false, PC); }
void __tsan_write2(void* p) { sim::access(p, 2, true, PC); }
void __tsan_unaligned_read2(void* p) { sim::access(p, 2, false, PC); }
void __tsan_unaligned_write2(void* p) { sim::access(p, 2, true, PC); }
void __tsan_volatile_read2(void* p) { sim::access(p, 2, false, PC); }
void __tsan_volatile_write2(void* p) { sim::access(p, 2, true, PC); }
void __tsan_unaligned_volatile_read2(void* p) { sim::access(p, 2, false, PC); }
void __tsan_unaligned_volatile_write2(void* p) { sim::access(p, 2, true, PC); }
void __tsan_read_write2(void* p) { sim::access(p, 2, true, PC); }
void __tsan_unaligned_read_write2(void* p) { sim::access(p, 2, true, PC); }
void __tsan_read4(void* p) { sim::access(p, 4, false, PC); }
void __tsan_write4(void* p) { sim::access(p, 4, true, PC); }
void __tsan_unaligned_read4(void* p) { sim::access(p, 4, false, PC); }
void __tsan_unaligned_write4(void* p) { sim::access(p, 4, true, PC); }
void __tsan_volatile_read4(void* p) { sim::access(p, 4, false, PC); }
void __tsan_volatile_write4(void* p) { sim::access(p, 4, true, PC); }
void __tsan_unaligned_volatile_read4(void* p) { sim::access(p, 4, false, PC); }
void __tsan_unaligned_volatile_write4(void* p) { sim::access(p, 4, true, PC); }
void __tsan_read_write4(void* p) { sim::access(p, 4, true, PC); }
void __tsan_unaligned_read_write4(void* p) { sim::access(p, 4, true, PC); }
void __tsan_read8(void* p) { sim::access(p, 8, false, PC); }
void __tsan_write8(void* p) { sim::access(p, 8, true, PC); }
void __tsan_unaligned_read8(void* p) { sim::access(p, 8, false, PC); }
void __tsan_unaligned_write8(void* p) { sim::access(p, 8, true, PC); }
void __tsan_volatile_read8(void* p) { sim::access(p, 8, false, PC); }
void __tsan_volatile_write8(void* p) { sim::access(p, 8, true, PC); }
void __tsan_unaligned_volatile_read8(void* p) { sim::access(p, 8, false, PC); }
void __tsan_unaligned_volatile_write8(void* p) { sim::access(p, 8, true, PC); }
void __tsan_read_write8(void* p) { sim::access(p, 8, true, PC); }
void __tsan_unaligned_read_write8(void* p) { sim::access(p, 8, true, PC); }
void __tsan_read16(void* p) { sim::access(p, 16, false, PC); }
void __tsan_write16(void* p) { sim::access(p, 16, true, PC); }
void __tsan_unaligned_read16(void* p) { sim::access(p, 16, false, PC); }
void __tsan_unaligned_write16(void* p) { sim::access(p, 16, true, PC); }
void __tsan_volatile_read16(void* p) { sim::access(p, 16, false, PC); }
void __tsan_volatile_write16(void* p) { sim::access(p, 16, true, PC); }
void __tsan_unaligned_volatile_read16(void* p) { sim::access(p, 16, false, PC); }
void __tsan_unaligned_volatile_write16(void* p) { sim::access(p, 16, true, PC); }
void __tsan_read_write16(void* p) { sim::access(p, 16, true, PC); }
void __tsan_unaligned_read_write16(void* p) { sim::access(p, 16, true, PC); }
unsigned char __tsan_atomic8_load(const volatile unsigned char* a, int) { sim::seam("atomic"); return *a; }
void __tsan_atomic8_store(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); *a = v; }
unsigned char __tsan_atomic8_exchange(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); unsigned char o = *a; *a = v; return o; }
unsigned char __tsan_atomic8_fetch_add(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); unsigned char o = *a; *a = (unsigned char)(o + v); return o; }
unsigned char __tsan_atomic8_fetch_sub(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); unsigned char o = *a; *a = (unsigned char)(o - v); return o; }
unsigned char __tsan_atomic8_fetch_and(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); unsigned char o = *a; *a = (unsigned char)(o & v); return o; }
unsigned char __tsan_atomic8_fetch_or(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); unsigned char o = *a; *a = (unsigned char)(o | v); return o; }
unsigned char __tsan_atomic8_fetch_xor(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); unsigned char o = *a; *a = (unsigned char)(o ^ v); return o; }
unsigned char __tsan_atomic8_fetch_nand(volatile unsigned char* a, unsigned char v, int) { sim::seam("atomic"); unsigned char o = *a; *a = (unsigned char)(~(o & v)); return o; }
int __tsan_atomic8_compare_exchange_strong(volatile unsigned char* a, unsigned char* c, unsigned char v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
int __tsan_atomic8_compare_exchange_weak(volatile unsigned char* a, unsigned char* c, unsigned char v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
unsigned char __tsan_atomic8_compare_exchange_val(volatile unsigned char* a, unsigned char c, unsigned char v, int, int) { sim::seam("atomic"); unsigned char o = *a; if (o == c) *a = v; return o; }
unsigned short __tsan_atomic16_load(const volatile unsigned short* a, int) { sim::seam("atomic"); return *a; }
void __tsan_atomic16_store(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); *a = v; }
unsigned short __tsan_atomic16_exchange(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); unsigned short o = *a; *a = v; return o; }
unsigned short __tsan_atomic16_fetch_add(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); unsigned short o = *a; *a = (unsigned short)(o + v); return o; }
unsigned short __tsan_atomic16_fetch_sub(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); unsigned short o = *a; *a = (unsigned short)(o - v); return o; }
unsigned short __tsan_atomic16_fetch_and(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); unsigned short o = *a; *a = (unsigned short)(o & v); return o; }
unsigned short __tsan_atomic16_fetch_or(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); unsigned short o = *a; *a = (unsigned short)(o | v); return o; }
unsigned short __tsan_atomic16_fetch_xor(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); unsigned short o = *a; *a = (unsigned short)(o ^ v); return o; }
unsigned short __tsan_atomic16_fetch_nand(volatile unsigned short* a, unsigned short v, int) { sim::seam("atomic"); unsigned short o = *a; *a = (unsigned short)(~(o & v)); return o; }
int __tsan_atomic16_compare_exchange_strong(volatile unsigned short* a, unsigned short* c, unsigned short v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
int __tsan_atomic16_compare_exchange_weak(volatile unsigned short* a, unsigned short* c, unsigned short v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
unsigned short __tsan_atomic16_compare_exchange_val(volatile unsigned short* a, unsigned short c, unsigned short v, int, int) { sim::seam("atomic"); unsigned short o = *a; if (o == c) *a = v; return o; }
unsigned int __tsan_atomic32_load(const volatile unsigned int* a, int) { sim::seam("atomic"); return *a; }
void __tsan_atomic32_store(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); *a = v; }
unsigned int __tsan_atomic32_exchange(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); unsigned int o = *a; *a = v; return o; }
unsigned int __tsan_atomic32_fetch_add(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); unsigned int o = *a; *a = (unsigned int)(o + v); return o; }
unsigned int __tsan_atomic32_fetch_sub(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); unsigned int o = *a; *a = (unsigned int)(o - v); return o; }
unsigned int __tsan_atomic32_fetch_and(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); unsigned int o = *a; *a = (unsigned int)(o & v); return o; }
unsigned int __tsan_atomic32_fetch_or(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); unsigned int o = *a; *a = (unsigned int)(o | v); return o; }
unsigned int __tsan_atomic32_fetch_xor(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); unsigned int o = *a; *a = (unsigned int)(o ^ v); return o; }
unsigned int __tsan_atomic32_fetch_nand(volatile unsigned int* a, unsigned int v, int) { sim::seam("atomic"); unsigned int o = *a; *a = (unsigned int)(~(o & v)); return o; }
int __tsan_atomic32_compare_exchange_strong(volatile unsigned int* a, unsigned int* c, unsigned int v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
int __tsan_atomic32_compare_exchange_weak(volatile unsigned int* a, unsigned int* c, unsigned int v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
unsigned int __tsan_atomic32_compare_exchange_val(volatile unsigned int* a, unsigned int c, unsigned int v, int, int) { sim::seam("atomic"); unsigned int o = *a; if (o == c) *a = v; return o; }
unsigned long __tsan_atomic64_load(const volatile unsigned long* a, int) { sim::seam("atomic"); return *a; }
void __tsan_atomic64_store(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); *a = v; }
unsigned long __tsan_atomic64_exchange(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); unsigned long o = *a; *a = v; return o; }
unsigned long __tsan_atomic64_fetch_add(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); unsigned long o = *a; *a = (unsigned long)(o + v); return o; }
unsigned long __tsan_atomic64_fetch_sub(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); unsigned long o = *a; *a = (unsigned long)(o - v); return o; }
unsigned long __tsan_atomic64_fetch_and(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); unsigned long o = *a; *a = (unsigned long)(o & v); return o; }
unsigned long __tsan_atomic64_fetch_or(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); unsigned long o = *a; *a = (unsigned long)(o | v); return o; }
unsigned long __tsan_atomic64_fetch_xor(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); unsigned long o = *a; *a = (unsigned long)(o ^ v); return o; }
unsigned long __tsan_atomic64_fetch_nand(volatile unsigned long* a, unsigned long v, int) { sim::seam("atomic"); unsigned long o = *a; *a = (unsigned long)(~(o & v)); return o; }
int __tsan_atomic64_compare_exchange_strong(volatile unsigned long* a, unsigned long* c, unsigned long v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
int __tsan_atomic64_compare_exchange_weak(volatile unsigned long* a, unsigned long* c, unsigned long v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
unsigned long __tsan_atomic64_compare_exchange_val(volatile unsigned long* a, unsigned long c, unsigned long v, int, int) { sim::seam("atomic"); unsigned long o = *a; if (o == c) *a = v; return o; }
unsigned __int128 __tsan_atomic128_load(const volatile unsigned __int128* a, int) { sim::seam("atomic"); return *a; }
void __tsan_atomic128_store(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); *a = v; }
unsigned __int128 __tsan_atomic128_exchange(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); unsigned __int128 o = *a; *a = v; return o; }
unsigned __int128 __tsan_atomic128_fetch_add(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); unsigned __int128 o = *a; *a = (unsigned __int128)(o + v); return o; }
unsigned __int128 __tsan_atomic128_fetch_sub(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); unsigned __int128 o = *a; *a = (unsigned __int128)(o - v); return o; }
unsigned __int128 __tsan_atomic128_fetch_and(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); unsigned __int128 o = *a; *a = (unsigned __int128)(o & v); return o; }
unsigned __int128 __tsan_atomic128_fetch_or(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); unsigned __int128 o = *a; *a = (unsigned __int128)(o | v); return o; }
unsigned __int128 __tsan_atomic128_fetch_xor(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); unsigned __int128 o = *a; *a = (unsigned __int128)(o ^ v); return o; }
unsigned __int128 __tsan_atomic128_fetch_nand(volatile unsigned __int128* a, unsigned __int128 v, int) { sim::seam("atomic"); unsigned __int128 o = *a; *a = (unsigned __int128)(~(o & v)); return o; }
int __tsan_atomic128_compare_exchange_strong(volatile unsigned __int128* a, unsigned __int128* c, unsigned __int128 v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
int __tsan_atomic128_compare_exchange_weak(volatile unsigned __int128* a, unsigned __int128* c, unsigned __int128 v, int, int) { sim::seam("atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
unsigned __int128 __tsan_atomic128_compare_exchange_val(volatile unsigned __int128* a, unsigned __int128 c, unsigned __int128 v, int, int) { sim::seam("atomic"); unsigned __int128 o = *a; if (o == c) *a = v; return o; }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
