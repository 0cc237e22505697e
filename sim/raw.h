#pragma once
// raw system calls that bypass every interposed symbol
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
	long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
static inline long raw3(long n, long a, long b, long c) { return raw6(n, a, b, c, 0, 0, 0); }
