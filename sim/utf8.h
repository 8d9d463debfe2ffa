// Included first in the code under test: as with the project's own compiler, wide characters are
// 16 bits and multibyte characters are converted with mbrtoc32 and c32rtomb (see sim_misc.cpp).
#pragma once
#ifdef __cplusplus
#include <cwchar>
#include <cwctype>
#include <string>
extern "C" {
#else
#include <wchar.h>
#include <wctype.h>
#endif
#include <stdlib.h>
#include <uchar.h>
#define WCHAR_T_BROKEN 1
size_t mbrtoc32(char32_t* out, const char* s, size_t n, mbstate_t* ps);
size_t c32rtomb(char* s, char32_t c, mbstate_t* ps);
#ifdef __cplusplus
}
#endif
