/* Default stand-ins for system calls used by the library objects. A property
 * file may define its own versions; these are weak and pass through. */
#define _GNU_SOURCE
#include <termios.h>
#include <openssl/rand.h>
#include <pthread.h>
#include <time.h>

#define WEAK __attribute__((weak))

WEAK int vf_RAND_bytes(unsigned char* b, int n) { return RAND_bytes(b, n); }
WEAK int vf_tcgetattr(int fd, struct termios* t) { return tcgetattr(fd, t); }
WEAK int vf_tcsetattr(int fd, int how, const struct termios* t) { return tcsetattr(fd, how, t); }
#ifndef VFMT
WEAK int vf_clock_gettime(clockid_t c, struct timespec* ts) { return clock_gettime(c, ts); }
WEAK int vf_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* d) { return pthread_create(t, a, f, d); }
#endif
int vf_RAND_bytes(unsigned char* b, int n);
int vf_RAND_priv_bytes(unsigned char* b, int n) { return vf_RAND_bytes(b, n); }
