#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <wchar.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/types.h>
#include <time.h>
#pragma push_macro("__CYGWIN__")
#define __CYGWIN__ 1
#define _INC_CRTDEFS
#define _INC_CORECRT
#define _CRTDEFS_H
#define WIN32_NO_STATUS_X
#define __int64 long long
#include_next <windows.h>
#pragma pop_macro("__CYGWIN__")
