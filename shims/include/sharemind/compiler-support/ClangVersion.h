#ifndef SHAREMIND_CLANGVERSION_H
#define SHAREMIND_CLANGVERSION_H
#if defined(__clang__)
#define SHAREMIND_CLANG_VERSION (__clang_major__ * 10000L + __clang_minor__ * 100L + __clang_patchlevel__)
#endif
#endif
