#ifndef SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_C_(a,b) a ## b
#define SHAREMIND_C(a,b) SHAREMIND_C_(a,b)
#define SHAREMIND_T_2_0(a,b) a
#define SHAREMIND_T_2_1(a,b) b
#define SHAREMIND_T_3_0(a,b,c) a
#define SHAREMIND_T_3_1(a,b,c) b
#define SHAREMIND_T_3_2(a,b,c) c
#define SHAREMIND_T(n,i,t) SHAREMIND_T_ ## n ## _ ## i t
#endif
