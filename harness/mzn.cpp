// analyzer: src/mizugaki/analyzer/details/analyze_name.cpp src/mizugaki/analyzer/details/query_scope.cpp src/mizugaki/analyzer/details/query_info.cpp src/mizugaki/analyzer/details/relation_info.cpp src/mizugaki/analyzer/details/column_info.cpp src/mizugaki/analyzer/details/analyzer_context.cpp src/mizugaki/analyzer/sql_analyzer_options.cpp
// Names: "W" lower catalog schemas path scopes questions <hex of SELECT name, ... FROM t> -> an answer per question, then the parameters of each scope
//        "R" operations on the columns of one relation -> what is found after each
#include <cstdio>
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <takatori/document/document.h>
#include <takatori/type/primitive.h>
#include <yugawara/binding/factory.h>
#include <mizugaki/analyzer/details/analyze_name.h>
#include <mizugaki/analyzer/details/relation_info.h>
#include <mizugaki/ast/query/query.h>
#include <mizugaki/ast/query/select_column.h>
#include <mizugaki/ast/scalar/variable_reference.h>
#include <mizugaki/ast/statement/select_statement.h>
#include <mizugaki/parser/sql_parser.h>
#include "mzana.h"
using namespace mizugaki;
using namespace mizugaki::analyzer::details;
namespace storage = yugawara::storage;
namespace tt = takatori::type;
using takatori::descriptor::variable;

static std::vector<std::string> csv(std::string const& s) {
    std::vector<std::string> r;
    if (s == "-") return r;
    std::istringstream in { s };
    for (std::string x; std::getline(in, x, ',');) r.push_back(x);
    return r;
}
static std::string empty(std::string const& s) { return s == "-" ? "" : s; }

static parser::sql_parser p {};
static analyzer_context cx {};

static std::string world(std::istream& in) {
    std::string lower, cat, s;
    int n, m;
    in >> lower >> cat >> n;
    auto provider = std::make_shared<yugawara::schema::configurable_provider>();
    std::vector<std::shared_ptr<yugawara::schema::declaration>> schemas;
    std::vector<std::shared_ptr<storage::configurable_provider>> stores;
    std::map<void const*, std::string> known;
    for (int i = 1; i <= n; ++i) {
        std::string name, rels, idx, vars, funcs, aggs;
        int listed;
        in >> name >> listed >> rels >> idx >> vars >> funcs >> aggs;
        auto st = std::make_shared<storage::configurable_provider>();
        auto vs = std::make_shared<yugawara::variable::configurable_provider>();
        auto fs = std::make_shared<yugawara::function::configurable_provider>();
        auto as = std::make_shared<yugawara::aggregate::configurable_provider>();
        auto here = std::to_string(i) + "/";
        for (auto&& r : csv(rels)) {
            auto id = r.substr(0, r.size() - 2);
            std::shared_ptr<storage::relation> d;
            if (r.back() == 't') d = std::make_shared<storage::table>(id);
            else d = std::make_shared<storage::view>(id);
            known[d.get()] = here + id;
            st->add_relation(d);
        }
        for (auto&& x : csv(idx)) {
            auto t = st->find_table(x);
            auto d = std::make_shared<storage::index>(t ? t : std::make_shared<storage::table>("of " + x), x);
            known[d.get()] = here + x;
            st->add_index(d);
        }
        for (auto&& x : csv(vars)) {
            auto d = std::make_shared<yugawara::variable::declaration>(x);
            known[d.get()] = "e" + here + x;
            vs->add(d);
        }
        auto callables = [&](std::string const& text, auto& to, auto make) {
            for (auto&& x : csv(text)) { // name:arguments:how many
                auto a = x.find(':'), b = x.rfind(':');
                for (int k = std::stoi(x.substr(b + 1)); k > 0; --k) {
                    auto d = make(x.substr(0, a), std::stoul(x.substr(a + 1)));
                    known[d.get()] = here + x.substr(0, a) + "/" + x.substr(a + 1, b - a - 1);
                    to.add(d);
                }
            }
        };
        callables(funcs, *fs, [](std::string x, std::size_t k) { return std::make_shared<yugawara::function::declaration>(x, k); });
        callables(aggs, *as, [](std::string x, std::size_t k) { return std::make_shared<yugawara::aggregate::declaration>(x, k); });
        auto d = std::make_shared<yugawara::schema::declaration>(name, st, vs, fs, as);
        known[d.get()] = std::to_string(i);
        if (listed) provider->add(d);
        schemas.push_back(d);
        stores.push_back(st);
    }
    in >> s;
    std::vector<takatori::util::maybe_shared_ptr<yugawara::schema::declaration const>> path;
    for (auto&& x : csv(s)) path.emplace_back(schemas.at(std::stoul(x) - 1));
    analyzer::sql_analyzer_options o { std::make_shared<yugawara::schema::catalog>(empty(cat), provider), std::make_shared<yugawara::schema::search_path>(path), schemas.at(0) };
    o.lowercase_regular_identifiers() = lower[0] == '1';
    o.lowercase_variable_regular_identifiers() = lower[1] == '1';
    o.lowercase_function_regular_identifiers() = lower[2] == '1';
    o.lowercase_relation_regular_identifiers() = lower[3] == '1';
    o.lowercase_schema_regular_identifiers() = lower[4] == '1';
    o.lowercase_catalog_regular_identifiers() = lower[5] == '1';

    std::deque<query_scope> scopes;
    std::map<query_info const*, std::string> queries;
    std::vector<std::pair<variable, std::string>> variables;
    std::map<void const*, std::string> types;
    std::vector<std::shared_ptr<tt::data const>> keep;
    yugawara::binding::factory f {};
    std::vector<std::pair<variable, std::shared_ptr<tt::data const>>> typed;
    std::string wrong;
    in >> m;
    for (int i = 1; i <= m; ++i) {
        std::string feat, ids;
        int k;
        in >> feat >> k;
        query_scope_feature_set fs {};
        if (feat.find('e') != std::string::npos) fs.insert(query_scope_feature::expose);
        if (feat.find('i') != std::string::npos) fs.insert(query_scope_feature::independent);
        if (feat.find('c') != std::string::npos) fs.insert(query_scope_feature::correlation);
        if (i == 1) scopes.emplace_back(fs);
        else scopes.emplace_back(scopes.back(), fs);
        auto& scope = scopes.back();
        for (int j = 1; j <= k; ++j) {
            std::string id, name, cols;
            int d;
            in >> id >> d >> name >> cols;
            takatori::util::optional_ptr<storage::relation const> decl {};
            if (d > 0) decl = takatori::util::optional_ptr<storage::relation const> { stores.at(static_cast<std::size_t>(d) - 1)->find_relation(name).get() };
            if (d > 0 && !decl) wrong = "no such relation";
            relation_info info { decl, empty(id) };
            int c = 0;
            for (auto&& x : csv(cols)) {
                auto label = "c" + std::to_string(i) + "." + std::to_string(j) + "." + std::to_string(++c);
                auto v = f.stream_variable(label);
                variables.emplace_back(v, label);
                auto column = x.substr(0, x.size() - 1);
                info.add({ {}, v, column == "~" ? std::optional<std::string> {} : std::optional<std::string> { column }, x.back() == '+' });
                if (c % 2 == 1) {
                    typed.emplace_back(v, std::make_shared<tt::int4>());
                    types[typed.back().second.get()] = label;
                }
            }
            if (scope.create_pivot() != static_cast<std::size_t>(j) - 1) wrong = "pivot";
            auto& added = scope.add(std::move(info));
            if (&added != &scope.references()[static_cast<std::size_t>(j) - 1]) wrong = "added elsewhere";
        }
        in >> ids;
        int c = 0;
        for (auto&& x : csv(ids)) {
            auto q = std::make_shared<query_info const>(takatori::relation::graph_type {}, std::vector<variable> {}, std::vector<std::optional<std::string>> {});
            queries[q.get()] = std::to_string(i) + "." + std::to_string(++c);
            keep.push_back({});
            bool before = scope.find_query(x) != nullptr;
            if (scope.add(x, q) == before) wrong = "query added twice";
        }
    }
    auto shown = [&](variable const& v) {
        for (std::size_t i = 0; i < scopes.size(); ++i) {
            auto const& ps = std::as_const(scopes[i]).list_parameters();
            for (std::size_t j = 0; j < ps.size(); ++j) if (std::get<1>(ps[j]) == v) return "p" + std::to_string(i + 1) + "." + std::to_string(j + 1);
        }
        for (auto&& x : variables) if (x.first == v) return x.second;
        auto it = known.find(v.reference().declaration);
        return it == known.end() ? std::string { "?" } : it->second;
    };
    in >> n;
    std::vector<std::pair<std::string, int>> asks;
    for (int i = 0; i < n; ++i) { std::string k; int a; in >> k >> a; asks.emplace_back(k, a); }
    in >> s;
    auto r = p("-", mzana::unhex(s));
    if (!r) return "parse: " + r.diagnostic().message();
    auto& unit = *r.value();
    auto const& doc = unit.document();
    auto& select = dynamic_cast<ast::statement::select_statement const&>(*unit.statements().at(0));
    auto& query = dynamic_cast<ast::query::query const&>(*select.expression());
    auto fin = cx.initialize(o, *doc, unit.comments());
    for (auto&& x : typed) cx.resolve_as(x.first, yugawara::analyzer::variable_resolution { x.second });
    std::string out;
    for (std::size_t i = 0; i < asks.size(); ++i) {
        auto& column = dynamic_cast<ast::query::select_column const&>(*query.elements().at(i));
        auto& name = *dynamic_cast<ast::scalar::variable_reference const&>(*column.value()).name();
        auto&& [k, a] = asks[i];
        auto& scope = scopes.back();
        std::string x;
        if (k == "variable") {
            auto e = analyze_variable_name(cx, name, scope);
            if (e) {
                x = "V " + shown(dynamic_cast<takatori::scalar::variable_reference const&>(*e).variable());
                if (!(e->region().source().get() == doc.get() && e->region().first() == name.region().begin && e->region().last() == name.region().end)) x += " elsewhere";
            }
        } else if (k == "info") {
            auto e = analyze_relation_info_name(cx, name, std::as_const(scope));
            if (e) {
                x = "R ?";
                for (std::size_t s2 = 0; s2 < scopes.size(); ++s2) for (std::size_t j = 0; j < scopes[s2].references().size(); ++j) if (&scopes[s2].references()[j] == e.get()) x = "R " + std::to_string(s2 + 1) + "." + std::to_string(j + 1);
            }
        } else if (k == "relation") {
            auto e = analyze_relation_name(cx, name, scope);
            if (auto* t = std::get_if<std::reference_wrapper<storage::table const>>(&e)) x = "T " + known[static_cast<storage::relation const*>(&t->get())];
            else if (auto* q = std::get_if<std::shared_ptr<query_info const>>(&e)) x = "Q " + queries[q->get()];
        } else if (k == "table") {
            auto e = a == 1 ? analyze_table_name(cx, name) : analyze_table_name(cx, name, false);
            if (e) x = "T " + known[static_cast<storage::relation const*>(e->second.get())] + (known[e->first.get()] + "/" + std::string { e->second->simple_name() } == known[static_cast<storage::relation const*>(e->second.get())] ? "" : " of another schema");
        } else if (k == "index") {
            auto e = a == 1 ? analyze_index_name(cx, name) : analyze_index_name(cx, name, false);
            if (e) x = "I " + known[e->second.get()] + (known[e->first.get()] + "/" + std::string { e->second->simple_name() } == known[e->second.get()] ? "" : " of another schema");
        } else if (k == "schema") {
            auto e = a == 1 ? analyze_schema_name(cx, name) : analyze_schema_name(cx, name, false);
            if (e) x = "S " + known[e.get()];
        } else if (k == "function" || k == "aggregate") {
            auto show = [&](auto const& es) {
                std::string first;
                std::size_t same = 0;
                for (auto&& e : es) { if (first.empty()) first = known[e.get()]; same += known[e.get()] == first; }
                return "F " + (es.empty() ? std::string {} : first + "#" + std::to_string(es.size()) + (same == es.size() ? "" : " mixed"));
            };
            x = k == "function" ? show(analyze_function_name(cx, name, static_cast<std::size_t>(a))) : show(analyze_aggregation_name(cx, name, static_cast<std::size_t>(a)));
        } else {
            ast::name::name const* q = &name; // the first part
            while (q->optional_qualifier()) q = q->optional_qualifier().get();
            auto& i2 = dynamic_cast<ast::name::simple const&>(*q);
            x = "n ";
            for (auto kind : { name_kind::not_specified, name_kind::variable, name_kind::function, name_kind::relation, name_kind::schema, name_kind::catalog }) x += normalize_identifier(cx, i2, kind);
        }
        if (x.empty()) x = cx.diagnostics().empty() ? "N" : "E";
        for (auto&& d : cx.diagnostics()) {
            std::ostringstream o2;
            o2 << " " << d.code() << " ";
            if (d.location().source().get() == doc.get()) o2 << d.location().first() << " " << d.location().last();
            else o2 << "nowhere";
            x += o2.str();
        }
        cx.diagnostics().clear();
        out += (out.empty() ? "" : ";") + x;
    }
    out += "|";
    for (std::size_t i = 0; i < scopes.size(); ++i) {
        out += i ? "," : "";
        for (auto&& x : scopes[i].list_parameters()) {
            std::string from = "-";
            if (cx.is_resolved(std::get<1>(x))) {
                from = "other";
                auto t = cx.test_info().variables().find(std::get<1>(x)).type().get();
                if (auto it = types.find(t); it != types.end()) from = it->second;
            }
            out += "(" + shown(std::get<0>(x)) + " " + from + ")";
        }
    }
    return out + (wrong.empty() ? "" : " " + wrong);
}
// a:<identifier or ~><+ or ->:<declaration or 0> add, e:first:last erase, n:position:<identifier or ~> rename, x:position hide or show
static std::string relation(std::istream& in) {
    yugawara::binding::factory f {};
    std::deque<storage::column> decls;
    for (int i = 1; i <= 3; ++i) decls.emplace_back("d" + std::to_string(i));
    relation_info r {};
    std::string out;
    int n = 0;
    std::map<void const*, int> number;
    for (std::string op; in >> op;) {
        std::istringstream s { op };
        std::string k, a, b;
        std::getline(s, k, ':'); std::getline(s, a, ':'); std::getline(s, b, ':');
        auto name = [](std::string const& x) { return x == "~" ? std::optional<std::string> {} : std::optional<std::string> { x }; };
        if (k == "a") {
            auto d = std::stoi(b);
            auto v = f.stream_variable("v");
            number[&v.reference()] = ++n;
            auto old = r.columns().empty() ? std::optional<std::size_t> {} : std::optional<std::size_t> { 0 };
            column_info c { d ? takatori::util::optional_ptr<storage::column const> { &decls[static_cast<std::size_t>(d) - 1] } : takatori::util::optional_ptr<storage::column const> {}, v, name(a.substr(0, a.size() - 1)), a.back() == '+' };
            c.next() = old; // where it came from does not matter
            auto& x = r.add(std::move(c));
            if (&x != &r.columns()[r.columns().size() - 1]) out += "elsewhere ";
        } else if (k == "e") {
            r.erase(std::stoul(a), std::stoul(b));
            r.rebuild();
        } else if (k == "n") {
            r.columns()[std::stoul(a)].identifier() = name(b);
            r.rebuild();
        } else if (k == "x") {
            auto& c = r.columns()[std::stoul(a)];
            c.exported() = !c.exported();
        }
    }
    auto const& cr = r;
    auto id = [&](column_info const& c) { return std::to_string(number[&c.variable().reference()]); };
    for (auto&& c : cr.columns()) out += id(c) + (c.exported() ? "+" : "-") + c.identifier().value_or("~") + " ";
    for (std::string x : { "a", "b", "A", "" }) {
        out += "|";
        auto e = r.find(x);
        auto e2 = cr.find(x);
        if (e.kind() != e2.kind() || (e.is_found() && &*e != &*e2)) out += "differs";
        if (e.is_ambiguous()) { out += "ambiguous"; continue; }
        if (e.is_absent()) continue;
        std::string chain = id(*e);
        takatori::util::optional_ptr<column_info> c { *e };
        for (int i = 0; i < 20; ++i) {
            auto m = cr.next(*c);
            c = r.next(*c);
            if (c.get() != m.get()) chain += " differs";
            if (!c) break;
            chain += "," + id(*c);
        }
        out += chain;
    }
    for (auto&& d : decls) {
        out += "|";
        auto e = r.find(d);
        auto e2 = cr.find(d);
        if (e.kind() != e2.kind()) out += "differs";
        out += e.is_ambiguous() ? "ambiguous" : e.is_absent() ? "" : id(*e);
    }
    return out;
}
int main() {
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in { line };
        std::string what, out;
        in >> what;
        try { out = what == "W" ? world(in) : relation(in); } catch (std::exception const& e) { out = std::string("X ") + e.what(); }
        for (auto& c : out) if (c == '\n') c = ' ';
        std::cout << out << "\n";
    }
}
