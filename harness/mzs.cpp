// Scanner service: tokens and comments of a text.
//   S <hex text>   ->  T \t name begin end~name begin end~... \t comments
#include <mizugaki/parser/sql_scanner.h>
#include <mizugaki/parser/sql_driver.h>
#include <mizugaki/parser/sql_parser_generated.hpp>
#include <takatori/document/basic_document.h>
#include <iostream>
#include <memory>
#include <sstream>

using namespace mizugaki;
using parser::sql_parser_generated;

static std::string unhex(std::string const& s) {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}

int main() {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string out;
        try {
            std::stringstream ss { line };
            std::string cmd, text;
            ss >> cmd >> text;
            text = unhex(text);
            auto document = std::make_shared<takatori::document::basic_document>("-", text);
            std::istringstream input { text };
            parser::sql_scanner scanner { input };
            parser::sql_driver driver { document };
            out = "T\t";
            for (std::size_t n = 0;; ++n) {
                auto t = scanner.next_token(driver);
                if (n) out += '~';
                std::string name = sql_parser_generated::symbol_name(t.kind());
                out += name + ' ' + std::to_string(t.location.begin) + ' ' + std::to_string(t.location.end);
                if (t.kind() == sql_parser_generated::symbol_kind::S_YYEOF || name == "<END_OF_FILE>" || name == "<UNCLOSED_BLOCK_COMMENT>") break;
                if (n > text.size() + 4) { out += "~..."; break; }
            }
            out += '\t';
            bool f = true;
            for (auto&& c : driver.comments()) { if (!f) out += ","; f = false; out += std::to_string(c.begin) + ":" + std::to_string(c.end); }
        } catch (std::exception const& e) {
            out = std::string { "X\t" } + e.what();
        }
        std::cout << out << "\n";
    }
}
