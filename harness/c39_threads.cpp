// C39: messages written and read by several threads at a time.
#include "threads.h"
#include <cstring>
#include <string>
#include <sharemind/InputMemoryStream.h>
#include <sharemind/NetworkMessage.h>
using namespace sharemind;
MC_SCENARIO(messages, 2, 4, 0) {
    both([](int i) {
        std::string const text = "text " + std::to_string(i); OutgoingNetworkMessage o; o.write(text); mc::point(); o.write(std::uint32_t(i * 1000 + 7)); int const arr[3] = { i, i + 1, i + 2 }; o.writeSizeAndArray(arr, 3u); o.write(i % 2 == 1);
        IncomingNetworkMessage m(o.data, o.size); std::string t; std::uint32_t u = 0; mc::point(); MC_CHECK(m.read(t) && t == text && m.read(u) && u == std::uint32_t(i * 1000 + 7), "`%s' and %u are read", t.c_str(), u);
        std::uint64_t n = 0; int got[3] = {}; bool b = false; MC_CHECK(m.readSize(n) && n == 3u && m.readArray(got, n) && !std::memcmp(got, arr, sizeof got) && m.read(b) && b == (i % 2 == 1) && m.getRemainingSize() == 0u, "the array");
    });
}
MC_SCENARIO(streams, 2, 4, 0) { both([](int i) { std::string const text = std::to_string(i * 111) + " word"; InputMemoryStream in(text.data(), text.size()); int n = -1; std::string w; in >> n; mc::point(); in >> w; MC_CHECK(n == i * 111 && w == "word" && in.eof(), "%d and `%s' are read", n, w.c_str()); }); }
