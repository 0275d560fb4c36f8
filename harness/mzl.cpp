// analyzer: src/mizugaki/analyzer/details/analyze_literal.cpp src/mizugaki/analyzer/details/analyzer_context.cpp src/mizugaki/analyzer/details/scalar_value_context.cpp src/mizugaki/analyzer/sql_analyzer_options.cpp
// Literals: "max small tight chars octets cast null system context default <hex of INSERT INTO t VALUES (literal, ...)>"
//   context: - or name:number:number of a type; default: whether there is a default value
// for each literal: its value, type and conversion, or the diagnostic
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <takatori/document/document.h>
#include <mizugaki/analyzer/details/analyzer_context.h>
#include <mizugaki/analyzer/details/analyze_literal.h>
#include <mizugaki/ast/literal/string.h>
#include <mizugaki/ast/literal/datetime.h>
#include <mizugaki/ast/statement/insert_statement.h>
#include <mizugaki/ast/query/table_value_constructor.h>
#include <mizugaki/ast/scalar/literal_expression.h>
#include <mizugaki/ast/scalar/value_constructor.h>
#include <mizugaki/parser/sql_parser.h>
#include <takatori/type/primitive.h>
#include <takatori/type/character.h>
#include <takatori/type/octet.h>
#include <takatori/type/decimal.h>
#include <takatori/type/time_of_day.h>
#include <takatori/type/time_point.h>
#include "mzana.h"
using namespace mizugaki;
using analyzer::details::analyzer_context;
using analyzer::details::scalar_value_context;
namespace tt = takatori::type;
namespace tv = takatori::value;
namespace ts = takatori::scalar;

static std::shared_ptr<tt::data const> type(std::string const& s) {
    std::istringstream in { s };
    std::string n, p, q;
    std::getline(in, n, ':'); std::getline(in, p, ':'); std::getline(in, q, ':');
    auto num = [](std::string const& x) { return x == "*" ? std::optional<std::size_t> {} : std::optional<std::size_t> { std::stoull(x) }; };
    if (n == "boolean") return std::make_shared<tt::boolean>();
    if (n == "int1") return std::make_shared<tt::int1>();
    if (n == "int2") return std::make_shared<tt::int2>();
    if (n == "int4") return std::make_shared<tt::int4>();
    if (n == "int8") return std::make_shared<tt::int8>();
    if (n == "float4") return std::make_shared<tt::float4>();
    if (n == "float8") return std::make_shared<tt::float8>();
    if (n == "date") return std::make_shared<tt::date>();
    if (n == "unknown") return std::make_shared<tt::unknown>();
    if (n == "decimal") return std::make_shared<tt::decimal>(num(p), num(q));
    if (n == "character") return std::make_shared<tt::character>(tt::varying_t { q == "1" }, num(p));
    if (n == "octet") return std::make_shared<tt::octet>(tt::varying_t { q == "1" }, num(p));
    if (n == "time_of_day") return std::make_shared<tt::time_of_day>(tt::with_time_zone_t { q == "1" });
    if (n == "time_point") return std::make_shared<tt::time_point>(tt::with_time_zone_t { q == "1" });
    throw std::runtime_error("type " + s);
}
static std::string value(tv::data const& v) {
    std::ostringstream o;
    switch (v.kind()) {
        case tv::value_kind::unknown: o << "unknown "; break;
        case tv::value_kind::boolean: return static_cast<tv::boolean const&>(v).get() ? "boolean true" : "boolean false";
        case tv::value_kind::int4: o << "int4 "; break;
        case tv::value_kind::int8: o << "int8 "; break;
        case tv::value_kind::float8: { char b[64]; std::snprintf(b, sizeof b, "%a", static_cast<tv::float8 const&>(v).get()); return std::string { "float8 " } + b; }
        case tv::value_kind::decimal: o << "decimal "; break;
        case tv::value_kind::character: return "character " + mzana::hex(static_cast<tv::character const&>(v).get());
        case tv::value_kind::octet: return "octet " + mzana::hex(static_cast<tv::octet const&>(v).get());
        case tv::value_kind::date: o << "date "; break;
        case tv::value_kind::time_of_day: o << "time_of_day "; break;
        case tv::value_kind::time_point: o << "time_point "; break;
        default: o << "other "; break;
    }
    o << v;
    return o.str();
}
static bool same(takatori::document::region const& a, takatori::document::document const& d, ast::node_region b) {
    return a.source().get() == &d && a.first() == b.begin && a.last() == b.end;
}
static std::string run(analyzer_context& cx, ast::literal::literal const& l, scalar_value_context const& v, takatori::document::document const& d) {
    auto r = analyzer::details::analyze_literal(cx, l, v);
    std::ostringstream o;
    if (r) {
        ts::expression const* e = r.get();
        bool here = same(e->region(), d, l.region());
        if (auto* c = dynamic_cast<ts::cast const*>(e)) {
            o << "C " << c->type() << " " << (c->loss_policy() == ts::cast_loss_policy::error ? "error" : "other") << " ";
            e = &c->operand();
            here = here && same(e->region(), d, l.region());
        }
        auto& i = dynamic_cast<ts::immediate const&>(*e);
        o << "I " << value(i.value()) << " " << i.type() << (here ? "" : " elsewhere");
    } else {
        o << "E";
    }
    for (auto&& x : cx.diagnostics()) {
        o << " " << x.code() << " ";
        if (same(x.location(), d, l.region())) o << "whole,";
        if (auto* s = dynamic_cast<ast::literal::string const*>(&l)) {
            if (same(x.location(), d, s->value().region())) o << "piece1,";
            std::size_t n = 1;
            for (auto&& p : s->concatenations()) if (++n, same(x.location(), d, p.region())) o << "piece" << n << ",";
        }
        if (auto* s = dynamic_cast<ast::literal::datetime const*>(&l)) if (s->value().region() && same(x.location(), d, s->value().region())) o << "value,";
    }
    cx.diagnostics().clear();
    return o.str();
}
int main() {
    analyzer_context cx {};
    parser::sql_parser p {};
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in { line };
        std::size_t max;
        bool small, tight, chars, octets, cast, null, def;
        int system;
        std::string context, text, out;
        in >> max >> small >> tight >> chars >> octets >> cast >> null >> system >> context >> def >> text;
        try {
            auto o = mzana::options();
            o.max_decimal_precision() = max;
            o.prefer_small_integer_literals() = small;
            o.prefer_small_decimal_literals() = tight;
            o.prefer_small_character_literals() = chars;
            o.prefer_small_binary_literals() = octets;
            o.cast_literals_in_context() = cast;
            o.allow_context_independent_null() = null;
            o.system_zone_offset() = std::chrono::minutes { system };
            scalar_value_context v {};
            if (context != "-") v.type() = type(context);
            if (def) v.default_value() = std::make_shared<tv::int4>(77);
            auto r = p("-", mzana::unhex(text));
            if (!r) { std::cout << "parse: " << r.diagnostic().message() << "\n"; continue; }
            auto& unit = *r.value();
            auto& insert = dynamic_cast<ast::statement::insert_statement const&>(*unit.statements().at(0));
            auto& table = dynamic_cast<ast::query::table_value_constructor const&>(*insert.expression());
            auto fin = cx.initialize(o, *unit.document(), unit.comments());
            for (auto&& row : table.elements()) {
                auto one = [&](ast::scalar::expression const& e) {
                    auto* l = dynamic_cast<ast::scalar::literal_expression const*>(&e);
                    out += (out.empty() ? "" : ";") + (l ? run(cx, *l->value(), v, *unit.document()) : std::string { "not a literal" });
                };
                if (auto* c = dynamic_cast<ast::scalar::value_constructor const*>(row.get())) for (auto&& e : c->elements()) one(*e);
                else one(*row);
            }
        } catch (std::exception const& e) { out = std::string("X ") + e.what(); }
        for (auto& c : out) if (c == '\n') c = ' ';
        std::cout << out << "\n";
    }
}
