// C32: strings hashed and compared by several threads at a time.
#include "threads.h"
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <sharemind/StringHasher.h>
#include <sharemind/StringHashTablePredicate.h>
#include <sharemind/StringView.h>
using namespace sharemind;
MC_SCENARIO(strings, 2, 4, 0) {
    both([](int i) {
        std::string const a = "a string " + std::to_string(i), b = "a string " + std::to_string(i + 1); std::vector<char> const v(a.begin(), a.end()); mc::point();
        MC_CHECK(StringHasher()(a) == StringHasher()(a.c_str()) && StringHasher()(a) == StringHasher()(v) && StringHasher()(b) == StringHasher()(b.c_str()), "the hashes of one string differ");
        auto const p = getOrCreateTemporaryStringHashTablePredicate(b.c_str()); mc::point(); MC_CHECK(p(b) && !p(a), "the predicate"); MC_CHECK(StringHasher()(b) == p.hash(), "the hash of the predicate");
    });
}
