#ifndef SHAREMIND_GCCVERSION_H
#define SHAREMIND_GCCVERSION_H
#if defined(__GNUC__) && !defined(__clang__)
#define SHAREMIND_GCC_VERSION (__GNUC__ * 10000L + __GNUC_MINOR__ * 100L + __GNUC_PATCHLEVEL__)
#endif
#endif
