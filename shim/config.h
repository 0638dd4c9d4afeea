/* what configure would find here */
#ifndef VF_CONFIG_H
#define VF_CONFIG_H
#define HAVE_ENDIAN_H 1
#define HAVE_CLOCK_GETTIME 1
#define HAVE_STDINT_H 1
#define PACKAGE "dnstable"
#define PACKAGE_NAME "dnstable"
#define PACKAGE_TARNAME "dnstable"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define PACKAGE_VERSION "0"
#define PACKAGE_STRING "dnstable 0"
#define VERSION "0"
#endif
