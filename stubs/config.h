/* stand-in for configure's config.h on this platform (Linux/glibc x86_64) */
#ifndef VP_CONFIG_H
#define VP_CONFIG_H
#define HAVE_ENDIAN_H 1
#define HAVE_CLOCK_GETTIME 1
#define PACKAGE_VERSION "verif"
#endif
