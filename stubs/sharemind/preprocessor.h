/* Stand-in for the SharemindCHeaders package, which is not installed. */
#ifndef SHAREMIND_PREPROCESSOR_H
#define SHAREMIND_PREPROCESSOR_H
#include <boost/preprocessor/seq/for_each.hpp>
#include <boost/preprocessor/tuple/elem.hpp>
#define SHAREMIND_C2_(a,b) a ## b
#define SHAREMIND_C(a,b) SHAREMIND_C2_(a,b)
#define SHAREMIND_C3_(a,b,c) a ## b ## c
#define SHAREMIND_C3(a,b,c) SHAREMIND_C3_(a,b,c)
#define SHAREMIND_T(n,i,t) BOOST_PP_TUPLE_ELEM(n,i,t)
#endif
