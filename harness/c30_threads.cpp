// C30: strings split and joined by several threads at a time.
#include "threads.h"
#include <string>
#include <vector>
#include <sharemind/Concat.h>
#include <sharemind/Split.h>
#include <sharemind/StringView.h>
using namespace sharemind;
MC_SCENARIO(pieces, 2, 4, 0) {
    both([](int i) {
        std::string const text = concat("a", i, ",,b", i + 1, ','); mc::point(); MC_CHECK(text == "a" + std::to_string(i) + ",,b" + std::to_string(i + 1) + ",", "joined as `%s'", text.c_str());
        std::vector<std::string> all, some; using It = std::string::const_iterator;
        split(text.begin(), text.end(), [](char c) { mc::point(); return c == ','; }, [&](It f, It l) { all.emplace_back(f, l); });
        splitNoAllowEmpty(text.begin(), text.end(), [](char c) { return c == ','; }, [&](It f, It l) { mc::point(); some.emplace_back(f, l); });
        MC_CHECK((all == std::vector<std::string>{"a" + std::to_string(i), "", "b" + std::to_string(i + 1), ""} && some == std::vector<std::string>{all[0], all[2]}), "`%s' is split into %zu and %zu pieces", text.c_str(), all.size(), some.size());
    });
}
