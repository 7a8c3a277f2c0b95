// C29: views used by several threads at a time.
#include "threads.h"
#include <sstream>
#include <string>
#include <boost/functional/hash.hpp>
#include <sharemind/StringView.h>
using namespace sharemind;
MC_SCENARIO(views, 2, 4, 0) {
    both([](int i) {
        std::string const text = "  text number " + std::to_string(i * 1111) + (i % 2 ? " " : "   "); StringView const v(text); mc::point();
        std::ostringstream o; o << v; MC_CHECK(v.str() == text && o.str() == text, "the text is `%s' instead of `%s'", o.str().c_str(), text.c_str());
        MC_CHECK(v.trimmed(' ').str() == "text number " + std::to_string(i * 1111) && v.find(StringView("number")) == 7u && v.rfind('t') == 5u && v.compare(StringView(text)) == 0 && v.findFirstNotOf(' ') == 2u, "searches");
        MC_CHECK(boost::hash<StringView>()(v) == boost::hash<StringView>()(StringView(text.c_str(), text.size())), "hash");
        MC_CHECK(StringView(v.substr(2u, 4u)) == StringView("text") && v.startsWith(' ') && v.endsWith(' '), "parts");
    });
}
MC_SCENARIO(shared_view, 2, 4, 0) { std::string const text = "a text, which is shared"; StringView const v(text); both([&](int i) { mc::point(); MC_CHECK(v.str() == text && v.find(',') == 6u && v.left(unsigned(i)).size() == unsigned(i) && v.findLastOf(StringView("z,")) == 6u && v.findLastNotOf(StringView("d")) == 21u, "a view used by two threads"); }); }
