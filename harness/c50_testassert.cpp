// C50: test macros: every outcome of the tested expression, in a process of its own, with what is printed.
#include "seq.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utility>
#include <sharemind/TestAssert.h>

namespace {
/* A chain of `depth` nested standard exceptions, over an exception of the given kind at the bottom. */
enum Bottom { Standard, Number, CString, Derived, Bottoms };
struct Own: std::runtime_error { using std::runtime_error::runtime_error; };
[[noreturn]] void chain(int depth, int bottom) {
    if (depth == 0) { switch (bottom) { case Standard: throw std::runtime_error("bottom"); case Number: throw 42; case CString: throw "text"; default: throw Own("own bottom"); } }
    try { chain(depth - 1, bottom); } catch (...) { std::throw_with_nested(std::runtime_error("level " + std::to_string(depth))); }
}
std::string expectedChain(int depth, int bottom) {
    std::string r; int const n = depth + 1;
    for (int i = 1; i <= n; ++i) { r += "[" + std::to_string(i) + "/" + std::to_string(n) + "] "; int const level = depth - i + 1; r += level ? "level " + std::to_string(level) : bottom == Standard ? "bottom" : bottom == Derived ? "own bottom" : "<UNKNOWN NON-STANDARD EXCEPTION>"; r += "\n"; }
    return r;
}
struct Shared { int evaluated, after, line; };
Shared * shared() { static Shared * const s = static_cast<Shared *>(::mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); return s; }
enum Outcome { True, False, Throws, Outcomes };
int outcome, depth, bottom;
int evaluate() { ++shared()->evaluated; if (outcome == Throws) chain(depth, bottom); return outcome == True ? 3 : 0; }
struct Explicit { explicit operator bool() const { return evaluate() != 0; } };
template <typename A, typename B> int pairOf(A, B) { return evaluate(); }
enum Macro { Assert, AssertExplicit, AssertComma, AssertEqual, AssertOr, AssertAssign, DoesNotThrow, DoesNotThrowStatement, ThrowsMacro, ThrowsStatements, Unreachable, PrintCurrent, AssertPercent, DoesNotThrowPercent, ThrowsPercent, Macros };
void use(int macro) {
    Shared & s = *shared();
    switch (macro) {
    case Assert: s.line = __LINE__; SHAREMIND_TESTASSERT(evaluate()); break;
    case AssertExplicit: s.line = __LINE__; SHAREMIND_TESTASSERT(Explicit()); break;
    case AssertComma: s.line = __LINE__; SHAREMIND_TESTASSERT(pairOf<int, char>(1, 'c')); break;
    case AssertEqual: s.line = __LINE__; SHAREMIND_TESTASSERT(evaluate() == 3); break;
    case AssertOr: s.line = __LINE__; SHAREMIND_TESTASSERT(s.after == 5 || evaluate()); break;
    case AssertAssign: { int x = 4; s.line = __LINE__; SHAREMIND_TESTASSERT(x = evaluate()); if (x != 3) ::_exit(8); } break;
    case DoesNotThrow: s.line = __LINE__; SHAREMIND_TEST_DOES_NOT_THROW(evaluate()); break;
    case DoesNotThrowStatement: s.line = __LINE__; SHAREMIND_TEST_DOES_NOT_THROW(auto const x = pairOf<int, int>(1, 2); static_cast<void>(x)); break;
    case ThrowsMacro: s.line = __LINE__; SHAREMIND_TEST_THROWS(evaluate()); break;
    case ThrowsStatements: s.line = __LINE__; SHAREMIND_TEST_THROWS(int a = 1, b = 2; pairOf<int, int>(a, b)); break;
    case AssertPercent: s.line = __LINE__; SHAREMIND_TESTASSERT(evaluate() % sizeof(int) == 3); break;
    case DoesNotThrowPercent: s.line = __LINE__; SHAREMIND_TEST_DOES_NOT_THROW(evaluate() % sizeof(int)); break;
    case ThrowsPercent: s.line = __LINE__; SHAREMIND_TEST_THROWS(evaluate() % sizeof(int)); break;
    case Unreachable: s.line = __LINE__; SHAREMIND_TEST_UNREACHABLE; break;
    case PrintCurrent: if (outcome == Throws) { try { evaluate(); } catch (...) { SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; } } else SHAREMIND_TEST_PRINT_CURRENT_EXCEPTION; break;
    }
    if (outcome == 99) SHAREMIND_TESTASSERT(false); else SHAREMIND_TESTASSERT(true); /* usable as single statements */
    s.after = 1;
}
void macros() {
    int const macro = seq::choose(Macros); outcome = seq::choose(Outcomes); depth = outcome == Throws ? seq::choose(seq::thorough() ? 12 : 5) : 0; bottom = outcome == Throws ? seq::choose(Bottoms) : 0;
    *shared() = Shared{0, 0, 0};
    int p[2]; SEQ_CHECK(!::pipe(p), "pipe");
    ::pid_t const pid = ::fork();
    if (!pid) { ::signal(SIGABRT, SIG_DFL); ::dup2(p[1], 2); std::setvbuf(stderr, nullptr, _IONBF, 0); ::close(p[0]); ::close(p[1]); use(macro); ::_exit(7); }
    ::close(p[1]); std::string text; char b[512]; for (ssize_t n; (n = ::read(p[0], b, sizeof b)) > 0;) text.append(b, std::size_t(n)); ::close(p[0]);
    int st = 0; ::waitpid(pid, &st, 0); Shared const s = *shared();
    bool const aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT, went = WIFEXITED(st) && WEXITSTATUS(st) == 7 && s.after;
    SEQ_CHECK(aborted != went, "macro %d outcome %d: status %d", macro, outcome, st);
    bool fails, printsChain = false, printsLine = true;
    switch (macro) {
    case Assert: case AssertExplicit: case AssertComma: case AssertEqual: case AssertOr: case AssertAssign: case AssertPercent: fails = outcome != True; printsChain = outcome == Throws; break;
    case DoesNotThrow: case DoesNotThrowStatement: case DoesNotThrowPercent: fails = outcome == Throws; printsChain = outcome == Throws; break;
    case ThrowsMacro: case ThrowsStatements: case ThrowsPercent: fails = outcome != Throws; break;
    case Unreachable: fails = true; break;
    default: fails = false; printsLine = false; printsChain = outcome == Throws; break;
    }
    SEQ_CHECK(aborted == fails, "macro %d outcome %d %s", macro, outcome, aborted ? "aborts" : "goes on");
    SEQ_CHECK(s.evaluated == (macro == Unreachable || (macro == PrintCurrent && outcome != Throws) ? 0 : 1), "evaluated %d times", s.evaluated);
    std::string const ch = expectedChain(depth, bottom);
    if (printsChain) SEQ_CHECK(text.size() >= ch.size() && text.compare(text.size() - ch.size(), ch.size(), ch) == 0, "macro %d prints `%s' for the chain `%s'", macro, text.c_str(), ch.c_str());
    if (macro == PrintCurrent) SEQ_CHECK(text == (outcome == Throws ? ch : "<NO EXCEPTION>\n"), "prints `%s'", text.c_str());
    else if (!fails) SEQ_CHECK(text.empty(), "macro %d prints `%s' without a failure", macro, text.c_str());
    else if (printsLine) SEQ_CHECK(text.find("c50_testassert.cpp:" + std::to_string(s.line) + ":") != std::string::npos && (macro == Unreachable || text.find(macro == AssertPercent ? "evaluate() % sizeof(int) == 3" : macro == DoesNotThrowPercent || macro == ThrowsPercent ? "evaluate() % sizeof(int)" : macro == AssertExplicit ? "Explicit()" : macro == AssertComma || macro == DoesNotThrowStatement || macro == ThrowsStatements ? "pairOf<int, " : "evaluate()") != std::string::npos), "macro %d prints `%s' for line %d", macro, text.c_str(), s.line);
    seq::count(4);
}
} // namespace
SEQ_TEST(test_macros, 0, 0) { macros(); }
