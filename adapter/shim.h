// Included before every source of the adapter: its POSIX calls go to the simulated terminal (sim/unix.cc).
#pragma once
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <locale.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/types.h>
#include <termios.h>
#include <unistd.h>
#include <wchar.h>
#include <algorithm>
#include <map>
#include <string>
#include <utility>
#include <vector>
#undef LOCK_WRITE
#undef LOCK_READ
#undef LOCK_MAND
#undef LOCK_RW
#undef ECHO_WIN
extern "C" {
int adx_pthread_create(pthread_t *t, const void *attr, void *(*fn)(void *), void *arg);
int adx_pthread_join(pthread_t t, void **ret);
ssize_t adx_read(int fd, void *buf, size_t n);
ssize_t adx_write(int fd, const void *buf, size_t n);
int adx_pipe(int *fds);
int adx_close(int fd);
int adx_fcntl(int fd, int cmd, ...);
int adx_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
int adx_isatty(int fd);
int adx_tcgetattr(int fd, struct termios *t);
int adx_tcsetattr(int fd, int how, const struct termios *t);
int adx_ioctl(int fd, unsigned long req, ...);
int adx_sigaction(int sig, const struct sigaction *sa, struct sigaction *old);
char *adx_realpath(const char *path, char *out);
int adx_access(const char *path, int mode);
char *adx_getenv(const char *name);
char *adx_setlocale(int cat, const char *loc);
size_t adx_mbstowcs(wchar_t *d, const char *s, size_t n);
size_t adx_wcstombs(char *d, const wchar_t *s, size_t n);
int adx_printf(const char *f, ...);
int adx_fprintf(FILE *o, const char *f, ...);
int adx_putchar(int c);
int adx_fflush(FILE *o);
void adx_perror(const char *s);
void adx_assert_fail(const char *e, const char *f, unsigned l, const char *fn) __attribute__((noreturn));
}
#define pthread_create(a, b, c, d) adx_pthread_create(a, b, c, d)
#define pthread_join(a, b) adx_pthread_join(a, b)
#define read(a, b, c) adx_read(a, b, c)
#define write(a, b, c) adx_write(a, b, c)
#define pipe(a) adx_pipe(a)
#define close(a) adx_close(a)
#define fcntl(...) adx_fcntl(__VA_ARGS__)
#define select(a, b, c, d, e) adx_select(a, b, c, d, e)
#define isatty(a) adx_isatty(a)
#define tcgetattr(a, b) adx_tcgetattr(a, b)
#define tcsetattr(a, b, c) adx_tcsetattr(a, b, c)
#define ioctl(...) adx_ioctl(__VA_ARGS__)
#define sigaction(a, b, c) adx_sigaction(a, b, c)
#define realpath(a, b) adx_realpath(a, b)
#define access(a, b) adx_access(a, b)
#define getenv(a) adx_getenv(a)
#define setlocale(a, b) adx_setlocale(a, b)
#define mbstowcs(a, b, c) adx_mbstowcs(a, b, c)
#define wcstombs(a, b, c) adx_wcstombs(a, b, c)
#define printf(...) adx_printf(__VA_ARGS__)
#define fprintf(...) adx_fprintf(__VA_ARGS__)
#undef putchar
#define putchar(a) adx_putchar(a)
#define fflush(a) adx_fflush(a)
#define perror(a) adx_perror(a)
#undef __assert_fail
#define __assert_fail adx_assert_fail
