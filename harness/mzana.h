// Helpers of the harnesses that drive parts of the analyzer.
#pragma once
#include <string>
#include <takatori/document/basic_document.h>
#include <yugawara/schema/configurable_provider.h>
#include <mizugaki/analyzer/sql_analyzer_options.h>
namespace mzana {
inline std::string unhex(std::string const& s) {
    std::string r;
    if (s != "-") for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
inline std::string hex(std::string_view s) {
    static char const* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r.empty() ? "-" : r;
}
inline mizugaki::analyzer::sql_analyzer_options options() {
    using namespace yugawara;
    auto schemas = std::make_shared<schema::configurable_provider>();
    auto d = std::make_shared<schema::declaration>("default_schema");
    schemas->add(d);
    return { std::make_shared<schema::catalog>("default_catalog", schemas), std::make_shared<schema::search_path>(std::vector<takatori::util::maybe_shared_ptr<schema::declaration const>> { d }), d };
}
} // namespace mzana
