/* minimal stand-ins for libc headers: only declarations the parser needs */
#ifndef _FAKE_H
#define _FAKE_H
typedef unsigned long size_t; typedef long ptrdiff_t; typedef long ssize_t;
typedef signed char int8_t; typedef short int16_t; typedef int int32_t; typedef long int64_t;
typedef unsigned char uint8_t; typedef unsigned short uint16_t; typedef unsigned int uint32_t; typedef unsigned long uint64_t;
typedef long intptr_t; typedef unsigned long uintptr_t; typedef int FILE;
typedef int va_list;
#define NULL ((void*)0)
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define INT32_MAX 2147483647
#define INT32_MIN (-2147483647-1)
#define UINT32_MAX 4294967295U
#define INT64_MAX 9223372036854775807L
#define LONG_MAX 9223372036854775807L
#define SIZE_MAX 18446744073709551615UL
#define DBL_MAX 1.7976931348623157e308
#define DBL_MIN 2.2250738585072014e-308
#define DBL_EPSILON 2.2204460492503131e-16
#define FLT_MAX 3.40282347e38
#define HUGE_VAL 1e999
#define INFINITY 1e999
#define M_PI 3.14159265358979323846
#define stderr ((FILE*)0)
#define stdout ((FILE*)0)
#define bool _Bool
#define true 1
#define false 0
#define assert(x) ((void)0)
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
#endif
