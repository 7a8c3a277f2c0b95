/* Stand-in for the SharemindCHeaders package, which is not installed. */
#ifndef SHAREMIND_ENDIAN_H
#define SHAREMIND_ENDIAN_H
#include <endian.h>
#endif
