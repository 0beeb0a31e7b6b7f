"""What the C standard library functions reachable from the headers do (trusted summaries)."""
def _w(s): return s.split()
_MATH1 = _w('acos asin atan cos sin tan acosh asinh atanh cosh sinh tanh exp exp2 expm1 log log10 log1p log2 logb sqrt cbrt '
            'fabs ceil floor nearbyint rint lrint llrint round lround llround trunc erf erfc lgamma tgamma ilogb nan nearbyint logb')
_MATH2 = _w('atan2 pow hypot fmod remainder copysign nextafter fdim fmax fmin ldexp scalbn scalbln')
_MATH3 = _w('fma')
PURE = set()
for f in _MATH1 + _MATH2 + _MATH3:
    PURE |= {f, f + 'f', f + 'l'}
PURE |= set(_w('abs labs llabs div ldiv lldiv isalnum isalpha isblank iscntrl isdigit isgraph islower isprint ispunct isspace isupper '
               'isxdigit tolower toupper strlen strnlen strcmp strncmp strchr strrchr strstr strspn strcspn strpbrk memcmp memchr '
               'atoi atol atoll atof __isnan __isinf __finite __isnanf __isinff __finitef __fpclassify __fpclassifyf __signbit '
               '__signbitf ffs ffsl ffsll strcoll strtoimax htons ntohs htonl ntohl __builtin_expect __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc'))
# pointer arguments written (index list)
WRITES = {
    'memcpy': [0], 'memmove': [0], 'memset': [0], 'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'strncat': [0],
    'frexp': [1], 'frexpf': [1], 'modf': [1], 'modff': [1], 'remquo': [2], 'remquof': [2],
    'strtof': [1], 'strtod': [1], 'strtol': [1], 'strtoul': [1], 'strtoll': [1], 'strtoull': [1], 'strtold': [1],
    'snprintf': [0], 'sprintf': [0], 'vsnprintf': [0], 'vsprintf': [0],
    'sscanf': list(range(2, 12)), '__isoc99_sscanf': list(range(2, 12)), '__isoc23_sscanf': list(range(2, 12)),
    'fgets': [0], 'fread': [0], 'strtok_r': [0, 2], 'gettimeofday': [0, 1], 'clock_gettime': [1],
}
STDIO = set(_w('printf fprintf vprintf vfprintf puts putchar fputs fputc putc fwrite perror fflush scanf getchar gets getc fgetc '
               'fscanf fopen fclose freopen fread fgets fseek ftell rewind feof ferror clearerr setvbuf setbuf remove rename tmpfile '
               'tmpnam __isoc99_scanf __isoc99_fscanf ungetc dprintf write read open close syslog _IO_putc _IO_getc putc_unlocked '
               'putchar_unlocked fputs_unlocked fseeko ftello fsetpos fgetpos'))
# stdio on a handle the caller supplies (fine) as opposed to the process's own streams
STDIO_ON_HANDLE = {'fwrite': 3, 'fread': 3, 'fgets': 2, 'fseek': 0, 'ftell': 0, 'rewind': 0, 'feof': 0, 'ferror': 0, 'clearerr': 0,
                   'fprintf': 0, 'vfprintf': 0, 'fputs': 1, 'fputc': 1, 'putc': 1, 'fflush': 0, 'fclose': 0, 'fgetc': 0, 'getc': 0,
                   'fscanf': 0, 'ungetc': 1, 'setvbuf': 0, 'setbuf': 0, 'fseeko': 0, 'ftello': 0, 'fsetpos': 0, 'fgetpos': 0}
ENDS = set(_w('exit abort _exit _Exit quick_exit __assert_fail __assert raise kill longjmp siglongjmp __assert_func terminate '
              '_ZSt9terminatev llvm.trap llvm.debugtrap llvm.ubsantrap __cxa_throw __stack_chk_fail pthread_exit atexit at_quick_exit'))
ENV = set(_w('getenv setenv putenv unsetenv secure_getenv system popen clearenv'))
ALLOC = set(_w('malloc calloc realloc reallocarray free aligned_alloc posix_memalign memalign valloc pvalloc cfree alloca strdup strndup '
               'asprintf vasprintf getline getdelim fopen fdopen freopen tmpfile opendir qsort qsort_r _Znwm _Znam _Znwj _Znaj _ZdlPv _ZdaPv '
               '_ZdlPvm _ZdaPvm _ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t mmap munmap sbrk brk bsearch_s open_memstream fmemopen k_malloc k_free '
               'pvPortMalloc vPortFree llvm.stacksave llvm.stackrestore'))
ALLOC -= {'llvm.stacksave', 'llvm.stackrestore'}
# functions with state of their own inside libc
HIDDEN = set(_w('strtok rand srand random srandom drand48 srand48 lrand48 localtime gmtime asctime ctime strerror setlocale signal '
                'tmpnam initstate setstate erand48 lgamma_signgam mblen mbtowc wctomb mbrtowc'))
ERRNO = {'__errno_location'}
TIME = set(_w('time clock gettimeofday clock_gettime times ftime nanosleep sleep usleep'))
KNOWN = PURE | set(WRITES) | STDIO | ENDS | ENV | ALLOC | HIDDEN | ERRNO | TIME

def intrinsic_writes(name):
    if name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
        return [0]
    return []
