#pragma once
#include <sys/types.h>
#define CCP_POSIX_TO_WIN_A 0
#define CCP_POSIX_TO_WIN_W 1
#define CCP_ABSOLUTE 0
#define CCP_RELATIVE 0x100
enum { CW_SYNC_WINENV = 40 };
extern "C" { ssize_t cygwin_conv_path(unsigned what, const void *from, void *to, size_t size); uintptr_t cygwin_internal(int t, ...); }
