/* Stand-in for the SharemindCHeaders package, which is not installed. */
#ifndef SHAREMIND_ALIGNTOCACHELINE_H
#define SHAREMIND_ALIGNTOCACHELINE_H
#define SHAREMIND_ALIGN_TO_CACHE_SIZE alignas(64)
#define SHAREMIND_ALIGN_TO_CACHE_LINE alignas(64)
#endif
