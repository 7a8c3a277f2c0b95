// C42: identifiers made, printed and parsed by several threads at a time.
#include "threads.h"
#include <functional>
#include <string>
#include <sharemind/Uuid.h>
using namespace sharemind;
MC_SCENARIO(identifiers, 2, 4, 0) {
    both([](int i) {
        std::string const name = "name " + std::to_string(i); Uuid const a = generateSharemindNameUuid(name); mc::point(); Uuid const want = UuidNameGenerator(sharemindNamespaceUuid)(name); MC_CHECK(a == want, "the identifier of a name differs from one use to another");
        std::string const s = uuidToString(a); mc::point(); MC_CHECK(s == boost::uuids::to_string(want) && uuidFromString(s) == a && std::hash<Uuid>()(a) == boost::hash<Uuid>()(want), "`%s'", s.c_str());
        Uuid nil = {{}}; std::string t = uuidToString(nil); t[0] = "0123456789abcdef"[i]; Uuid const p = uuidFromString(t); MC_CHECK(p.data[0] == i * 16, "the first byte of %s is %d", t.c_str(), p.data[0]);
    });
}
