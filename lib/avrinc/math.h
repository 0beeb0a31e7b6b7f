#ifndef EMLV_MATH
#define EMLV_MATH
#define INFINITY __builtin_inff()
#define NAN __builtin_nanf("")
#define HUGE_VALF __builtin_huge_valf()
#define M_PI 3.14159265358979323846
#define M_E 2.71828182845904523536
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define signbit(x) __builtin_signbit(x)
double acos(double); float acosf(float);
double asin(double); float asinf(float);
double atan(double); float atanf(float);
double cos(double); float cosf(float);
double sin(double); float sinf(float);
double tan(double); float tanf(float);
double acosh(double); float acoshf(float);
double asinh(double); float asinhf(float);
double atanh(double); float atanhf(float);
double cosh(double); float coshf(float);
double sinh(double); float sinhf(float);
double tanh(double); float tanhf(float);
double exp(double); float expf(float);
double exp2(double); float exp2f(float);
double expm1(double); float expm1f(float);
double log(double); float logf(float);
double log10(double); float log10f(float);
double log1p(double); float log1pf(float);
double log2(double); float log2f(float);
double sqrt(double); float sqrtf(float);
double cbrt(double); float cbrtf(float);
double fabs(double); float fabsf(float);
double ceil(double); float ceilf(float);
double floor(double); float floorf(float);
double rint(double); float rintf(float);
double round(double); float roundf(float);
double trunc(double); float truncf(float);
double nearbyint(double); float nearbyintf(float);
double erf(double); float erff(float);
double atan2(double,double); float atan2f(float,float);
double pow(double,double); float powf(float,float);
double hypot(double,double); float hypotf(float,float);
double fmod(double,double); float fmodf(float,float);
double fmin(double,double); float fminf(float,float);
double fmax(double,double); float fmaxf(float,float);
double copysign(double,double); float copysignf(float,float);
double fdim(double,double); float fdimf(float,float);
float ldexpf(float,int); double ldexp(double,int); float frexpf(float,int*); float fmaf(float,float,float); double fma(double,double,double); long lroundf(float); long lround(double); float modff(float,float*);
#endif
