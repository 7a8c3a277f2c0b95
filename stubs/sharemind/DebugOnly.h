/* Stand-in for the SharemindCHeaders package, which is not installed. */
#ifndef SHAREMIND_DEBUGONLY_H
#define SHAREMIND_DEBUGONLY_H
#ifdef NDEBUG
#define SHAREMIND_DEBUG_ONLY(...)
#define SHAREMIND_NDEBUG_ONLY(...) __VA_ARGS__
#else
#define SHAREMIND_DEBUG_ONLY(...) __VA_ARGS__
#define SHAREMIND_NDEBUG_ONLY(...)
#endif
#define SHAREMIND_DEBUGONLY(...) SHAREMIND_DEBUG_ONLY(__VA_ARGS__)
#endif
