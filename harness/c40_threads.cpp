// C40: data hashed, copied and loaded by several threads at a time.
#include "threads.h"
#include <cstring>
#include <string>
#include <sharemind/Datum.h>
#include <sharemind/Hash.h>
using namespace sharemind;
MC_SCENARIO(data, 2, 4, 0) {
    both([](int i) {
        std::string const a = "some data " + std::to_string(i); Datum d(a.data(), a.size()); Datum const e(d); mc::point();
        MC_CHECK(d == e && d.hash() == e.hash() && d.hash() == hashRawData(a.data(), a.size()) && d.size() == a.size() && !std::memcmp(d.constData(), a.data(), a.size()), "data");
        d.resize(a.size() + 3, char('x')); Datum f; f = e; f.assign("other", 5); mc::point(); MC_CHECK(d != e && d.size() == a.size() + 3 && e.size() == a.size() && f.size() == 5u && !std::memcmp(f.constData(), "other", 5) && !std::memcmp(e.constData(), a.data(), a.size()), "copies");
    });
}
MC_SCENARIO(failed_loads, 1, 2, 0) { both([](int i) { std::string const name = "/nonexistent/file " + std::to_string(i); try { Datum d(name); mc::fail("a file which does not exist is loaded"); } catch (Datum::LoadException const & e) { MC_CHECK(std::strstr(e.what(), name.c_str()), "`%s' is the error of %s", e.what(), name.c_str()); } }); }
