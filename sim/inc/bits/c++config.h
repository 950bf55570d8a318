#pragma once
// Instantiate every std::wstring member here: wchar_t has 16 bits, the library's copies use 32.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
