// C43: exceptions made and printed by several threads at a time.
#include "threads.h"
#include <cerrno>
#include <cstring>
#include <exception>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sharemind/DebugVerboseHandlers.h>
#include <sharemind/Exception.h>
#include <sharemind/ExceptionMacros.h>
#include <sharemind/ScopeExit.h>
#include <sharemind/ThrowNested.h>
using namespace sharemind;
namespace { SHAREMIND_DETAIL_DEFINE_EXCEPTION_CONST_STDSTRING(Exception, TextException); }
MC_SCENARIO(errors, 2, 4, 0) {
    both([](int i) { int const e = i % 2 ? EINTR : 1000 + i; char b[256]; std::string const text = strerror_r(e, b, sizeof b); ErrnoException const x(e); ErrnoException const y(x); mc::point(); MC_CHECK(x.errorNumber() == e && text == x.what() && text == y.what(), "the message of error %d is `%s'", e, x.what()); });
}
MC_SCENARIO(texts, 2, 4, 0) {
    both([](int i) { std::string const text = "message " + std::to_string(i); TextException const x(text); TextException const y(x); mc::point(); MC_CHECK(text == x.what() && text == y.what(), "the message is `%s' instead of `%s'", y.what(), text.c_str()); });
}
MC_SCENARIO(shared_text, 2, 4, 0) {
    TextException const x("message"); both([&x](int) { TextException const y(x); mc::point(); MC_CHECK(!std::strcmp(x.what(), "message") && !std::strcmp(y.what(), "message"), "message"); });
}
MC_SCENARIO(printing, 2, 4, 0) {
    both([](int i) { std::ostringstream o; std::string const a = "inner " + std::to_string(i), b = "outer " + std::to_string(i); try { throwNested(std::runtime_error(a), std::runtime_error(b)); } catch (...) { verbosePrintException(std::current_exception(), o); }
        std::string const s = o.str(); auto const at = s.find(b); MC_CHECK(at != std::string::npos && s.find(a, at) != std::string::npos && s.find("1: ") == 0 && s.find("2: ") != std::string::npos, "`%s' is printed", s.c_str()); });
}
MC_SCENARIO(guards, 2, 4, 0) {
    both([](int i) { int n = 0; { ScopeExit g{[&n] { ++n; }}; mc::point(); ScopeExit h(std::move(g)); (void) i; MC_CHECK(n == 0, "early"); } MC_CHECK(n == 1, "the guard ran %d times", n); });
}
