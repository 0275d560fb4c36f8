// sources: src/mizugaki/analyzer/details/analyze_description.cpp
// The text of descriptions: "T before text after" (hexadecimal), answers the text shown for the middle part.
#include <iostream>
#include <sstream>
#include <string>
#include <mizugaki/analyzer/details/analyzer_context.h>
#include <mizugaki/analyzer/details/analyze_description.h>
#include <takatori/document/basic_document.h>
using mizugaki::ast::node_region;
static std::string unhex(std::string const& s) {
    std::string r;
    if (s != "-") for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static std::string hex(std::string const& s) {
    static char const* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? "-" : r;
}
int main() {
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in { line };
        std::string a, b, c;
        in >> a >> b >> c;
        auto before = unhex(a), text = unhex(b), after = unhex(c);
        takatori::document::basic_document doc { "x", before + text + after };
        node_region r { before.size(), before.size() + text.size() };
        using namespace mizugaki::analyzer::details;
        auto first = analyze_description(doc, r);
        auto again = analyze_description(analyzer_context { &doc }, r);
        auto none = analyze_description(analyzer_context { nullptr }, r);
        auto absent = analyze_description(doc, node_region {});
        auto beyond = analyze_description(doc, node_region { before.size(), doc.size() + 1 });
        std::cout << hex(first) << " " << (first == again) << none.empty() << absent.empty() << beyond.empty()
                  << (doc.contents(0, doc.size()) == before + text + after) << "\n" << std::flush;
    }
    return 0;
}
