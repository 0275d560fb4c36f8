// analyzer: src/mizugaki/analyzer/details/analyze_type.cpp src/mizugaki/analyzer/details/analyzer_context.cpp src/mizugaki/analyzer/sql_analyzer_options.cpp
// Types: "max def i1 i2 i4 i8 f4 f8 S <hex text>": the types of the columns of the declaration
//        "... D kind a b v rb re ab ae bb be ...": a type built from its class
#include <iostream>
#include <sstream>
#include <string>
#include <takatori/document/document.h>
#include <mizugaki/analyzer/details/analyzer_context.h>
#include <mizugaki/analyzer/details/analyze_type.h>
#include <mizugaki/ast/statement/table_definition.h>
#include <mizugaki/ast/statement/column_definition.h>
#include <mizugaki/ast/type/simple.h>
#include <mizugaki/ast/type/character_string.h>
#include <mizugaki/ast/type/octet_string.h>
#include <mizugaki/ast/type/bit_string.h>
#include <mizugaki/ast/type/decimal.h>
#include <mizugaki/ast/type/binary_numeric.h>
#include <mizugaki/ast/type/datetime.h>
#include <mizugaki/ast/type/interval.h>
#include <mizugaki/parser/sql_parser.h>
#include "mzana.h"
using namespace mizugaki;
using analyzer::details::analyzer_context;
using ast::node_region;
using ast::common::regioned;
using tk = ast::type::kind;

static std::string run(analyzer_context& cx, ast::type::type const& t) {
    auto r = analyzer::details::analyze_type(cx, t);
    auto again = r ? analyzer::details::analyze_type(cx, t) : r;
    std::ostringstream o;
    if (r) o << "T " << *r << (again && *again == *r ? "" : " unlike the second time");
    else o << "E";
    for (auto&& d : cx.diagnostics()) o << " " << d.code() << " " << d.location().first() << " " << d.location().last();
    cx.diagnostics().clear();
    return o.str();
}
static std::unique_ptr<ast::type::type> make(std::istream& in) {
    std::string k;
    long long a, b, v;
    std::size_t x[6];
    in >> k >> a >> b >> v;
    for (auto& e : x) in >> e;
    auto size = [&](long long n, std::size_t i) -> std::optional<regioned<std::size_t>> {
        if (n == -1) return std::nullopt;
        return regioned<std::size_t> { n == -2 ? static_cast<std::size_t>(-1) : static_cast<std::size_t>(n), node_region { x[i], x[i + 1] } };
    };
    node_region whole { x[0], x[1] }, first { x[0], x[0] + 1 };
    auto r = [&](tk q) { return regioned<tk> { q, first }; };
    if (k == "character") return std::make_unique<ast::type::character_string>(r(v ? tk::character_varying : tk::character), size(a, 2), whole);
    if (k == "octet") return std::make_unique<ast::type::octet_string>(r(v ? tk::octet_varying : tk::octet), size(a, 2), whole);
    if (k == "bit") return std::make_unique<ast::type::bit_string>(r(v ? tk::bit_varying : tk::bit), size(a, 2), whole);
    if (k == "decimal") return std::make_unique<ast::type::decimal>(r(x[0] % 2 ? tk::decimal : tk::numeric), size(a, 2), size(b, 4), whole);
    if (k == "binary_integer") return std::make_unique<ast::type::binary_numeric>(r(tk::binary_integer), size(a, 2), whole);
    if (k == "binary_float") return std::make_unique<ast::type::binary_numeric>(r(tk::binary_float), size(a, 2), whole);
    if (k == "interval") return std::make_unique<ast::type::interval>(whole);
    if (k == "time" || k == "timestamp") {
        std::optional<regioned<bool>> z {};
        if (v >= 0) z = regioned<bool> { v == 1, first };
        return std::make_unique<ast::type::datetime>(r(k == "time" ? tk::time : tk::timestamp), z, whole);
    }
    if (k == "float") k = "float_";
    for (auto q : { tk::unknown, tk::tiny_integer, tk::small_integer, tk::integer, tk::big_integer, tk::float_, tk::real, tk::double_precision, tk::boolean, tk::date, tk::binary_large_object, tk::character_large_object }) {
        std::ostringstream o; o << q;
        if (o.str() == k || o.str() + "_" == k || o.str() == k + "_") return std::make_unique<ast::type::simple>(q, whole);
    }
    throw std::runtime_error("kind " + k);
}
int main() {
    analyzer_context cx {};
    parser::sql_parser p {};
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in { line };
        std::size_t n[8];
        std::string def, mode;
        in >> n[0] >> def;
        for (int i = 2; i < 8; ++i) in >> n[i];
        in >> mode;
        auto o = mzana::options();
        o.max_decimal_precision() = n[0];
        if (def == "-") o.default_decimal_precision() = std::nullopt; else o.default_decimal_precision() = std::stoull(def);
        o.max_binary_integer1_precision() = n[2];
        o.max_binary_integer2_precision() = n[3];
        o.max_binary_integer4_precision() = n[4];
        o.max_binary_integer8_precision() = n[5];
        o.max_binary_float4_precision() = n[6];
        o.max_binary_float8_precision() = n[7];
        std::string out;
        try {
            if (mode == "S") {
                std::string hex;
                in >> hex;
                auto r = p("-", mzana::unhex(hex));
                if (!r) { std::cout << "parse: " << r.diagnostic().message() << "\n"; continue; }
                auto&& unit = r.value();
                auto& table = dynamic_cast<ast::statement::table_definition const&>(*unit->statements().at(0));
                auto fin = cx.initialize(o, *unit->document(), unit->comments());
                for (auto&& e : table.elements()) out += (out.empty() ? "" : ";") + run(cx, *dynamic_cast<ast::statement::column_definition const&>(*e).type());
            } else {
                takatori::document::basic_document doc { "-", std::string(100, ' ') };
                auto fin = cx.initialize(o, doc);
                std::string d = mode;
                do { auto t = make(in); out += (out.empty() ? "" : ";") + run(cx, *t); } while (in >> d);
            }
        } catch (std::exception const& e) { out = std::string("X ") + e.what(); }
        std::cout << out << "\n";
    }
}
