/* Stand-in for the config.h that ./configure writes on Linux/glibc (see DESIGN.md, "Front end"). */
#define HAVE_DIRENT_H 1
#define HAVE_FCNTL_H 1
#define HAVE_GETOPT_LONG 1
#define HAVE_INTTYPES_H 1
#define HAVE_LIBGEN_H 1
#define HAVE_LOCALE_H 1
#define HAVE_MALLOC 1
#define HAVE_MEMSET 1
#define HAVE_SETLOCALE 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRCASECMP 1
#define HAVE_STRCHR 1
#define HAVE_STRDUP 1
#define HAVE_STRERROR 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_STRNCASECMP 1
#define HAVE_STRRCHR 1
#define HAVE_STRTOL 1
#define HAVE_STRUCT_STAT_ST_BLOCKS 1
#define HAVE_ST_BLOCKS 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define PACKAGE "detox"
#define PACKAGE_NAME "detox"
#define PACKAGE_STRING "detox 3.0.0-beta2"
#define PACKAGE_VERSION "3.0.0-beta2"
#define STDC_HEADERS 1
#define VERSION "3.0.0-beta2"
