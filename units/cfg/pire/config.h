/* config.h.in.  Generated from config.h.in.in by configure.  */
/* config.h.in.in.  Generated from configure.ac by autoheader.  */

/* Define if building universal (internal helper macro) */
/* #undef AC_APPLE_UNIVERSAL_BUILD */

/* The normal alignment of `size_t', in bytes. */
#define PIRE_ALIGNOF_SIZE_T 8

/* The normal alignment of `uint64_t', in bytes. */
#define PIRE_ALIGNOF_UINT64_T 8

/* Define to 1 if valgrind-compatible memory fetch is needed */
/* #undef ENABLE_VALGRIND_SAFE */

/* Define to 1 if C++11 alignas is supported */
#define PIRE_HAVE_ALIGNAS 1

/* Define to 1 if __attribute__((aligned)) is supported */
#define PIRE_HAVE_ATTR_ALIGNED 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define PIRE_HAVE_DLFCN_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define PIRE_HAVE_INTTYPES_H 1

/* Define to 1 if C++11 lambdas are supported */
#define PIRE_HAVE_LAMBDAS 1

/* Define to 1 if your system has a GNU libc compatible `malloc' function, and
   to 0 otherwise. */
#define PIRE_HAVE_MALLOC 1

/* Define to 1 if you have the <memory.h> header file. */
#define PIRE_HAVE_MEMORY_H 1

/* Define to 1 if you have the `memset' function. */
#define PIRE_HAVE_MEMSET 1

/* Define to 1 if the system has the type `ptrdiff_t'. */
#define PIRE_HAVE_PTRDIFF_T 1

/* Define to 1 if gcc-specific scoped expressions are supported */
#define PIRE_HAVE_SCOPED_EXPR 1

/* Define to 1 if stdbool.h conforms to C99. */
/* #undef HAVE_STDBOOL_H */

/* Define to 1 if you have the <stdint.h> header file. */
#define PIRE_HAVE_STDINT_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define PIRE_HAVE_STDLIB_H 1

/* Define to 1 if you have the `strchr' function. */
#define PIRE_HAVE_STRCHR 1

/* Define to 1 if you have the <strings.h> header file. */
#define PIRE_HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define PIRE_HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define PIRE_HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/time.h> header file. */
#define PIRE_HAVE_SYS_TIME_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define PIRE_HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define PIRE_HAVE_UNISTD_H 1

/* Define to 1 if the system has the type `_Bool'. */
/* #undef HAVE__BOOL */

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define PIRE_LT_OBJDIR ".libs/"

/* Name of package */
#define PIRE_PACKAGE "pire"

/* Define to the address where bug reports for this package should be sent. */
#define PIRE_PACKAGE_BUGREPORT "galtsev@yandex-team.ru"

/* Define to the full name of this package. */
#define PIRE_PACKAGE_NAME "pire"

/* Define to the full name and version of this package. */
#define PIRE_PACKAGE_STRING "pire 0.0.6"

/* Define to the one symbol short name of this package. */
#define PIRE_PACKAGE_TARNAME "pire"

/* Define to the home page for this package. */
#define PIRE_PACKAGE_URL ""

/* Define to the version of this package. */
#define PIRE_PACKAGE_VERSION "0.0.6"

/* Define to 1 if you have the ANSI C header files. */
#define PIRE_STDC_HEADERS 1

/* Version number of package */
#define PIRE_VERSION "0.0.6"

/* Define WORDS_BIGENDIAN to 1 if your processor stores words with the most
   significant byte first (like Motorola and SPARC, unlike Intel). */
#if defined AC_APPLE_UNIVERSAL_BUILD
# if defined __BIG_ENDIAN__
#  define WORDS_BIGENDIAN 1
# endif
#else
# ifndef WORDS_BIGENDIAN
/* #  undef WORDS_BIGENDIAN */
# endif
#endif

/* Define to 1 if `lex' declares `yytext' as a `char *' by default, not a
   `char[]'. */
/* #undef YYTEXT_POINTER */

/* Define to `__inline__' or `__inline' if that's what the C compiler
   calls it, or to nothing if 'inline' is not supported under any name.  */
#ifndef __cplusplus
/* #undef inline */
#endif

/* Define to rpl_malloc if the replacement function should be used. */
/* #undef malloc */

/* Define to `unsigned int' if <sys/types.h> does not define. */
/* #undef size_t */
