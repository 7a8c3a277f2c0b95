// Two threads which use unrelated objects: nothing they do may be shared.
#ifndef VERIF_HARNESS_THREADS_H
#define VERIF_HARNESS_THREADS_H
#include "mc.h"
#include <thread>
#include <utility>
namespace {
template <typename F> void both(F f) { std::thread a([&f] { f(0); mc::point(); f(2); }); f(1); mc::point(); f(3); a.join(); f(0); }
} // namespace
#endif
