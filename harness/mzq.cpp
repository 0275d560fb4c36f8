// analyzer: src/mizugaki/analyzer/sql_analyzer.cpp src/mizugaki/analyzer/sql_analyzer_impl.cpp src/mizugaki/analyzer/sql_analyzer_result.cpp src/mizugaki/analyzer/sql_analyzer_options.cpp src/mizugaki/analyzer/details/analyze_statement.cpp src/mizugaki/analyzer/details/analyze_query_expression.cpp src/mizugaki/analyzer/details/analyze_scalar_expression.cpp src/mizugaki/analyzer/details/set_function_processor.cpp src/mizugaki/analyzer/details/analyze_name.cpp src/mizugaki/analyzer/details/analyze_type.cpp src/mizugaki/analyzer/details/analyze_literal.cpp src/mizugaki/analyzer/details/analyze_description.cpp src/mizugaki/analyzer/details/query_scope.cpp src/mizugaki/analyzer/details/query_info.cpp src/mizugaki/analyzer/details/relation_info.cpp src/mizugaki/analyzer/details/column_info.cpp src/mizugaki/analyzer/details/analyzer_context.cpp src/mizugaki/analyzer/details/value_context.cpp src/mizugaki/analyzer/details/row_value_context.cpp src/mizugaki/analyzer/details/scalar_value_context.cpp src/mizugaki/placeholder_map.cpp src/mizugaki/placeholder_entry.cpp
// Whole statements: "W" a catalog, "Q" settings and the text of a statement -> the plan or statement, or the error and the text it is at
#include <cstdio>
#include <deque>
#include <iostream>
#include <map>
#include <set>
#include <unordered_set>
#include <sstream>
#include <string>
#include <takatori/document/document.h>
#include <takatori/type/primitive.h>
#include <takatori/type/table.h>
#include <takatori/value/primitive.h>
#include <yugawara/binding/factory.h>
#include <impl/statements.h>
#include <mizugaki/analyzer/sql_analyzer.h>
#include <mizugaki/parser/sql_parser.h>
#include "mzana.h"
using namespace mizugaki;
namespace storage = yugawara::storage;
namespace tt = takatori::type;
namespace tv = takatori::value;
namespace ts = takatori::scalar;
namespace tr = takatori::relation;
namespace st = takatori::statement;
namespace yr = yugawara::extension::relation;
namespace ys = yugawara::extension::scalar;
using takatori::descriptor::variable;

static std::vector<std::string> split(std::string const& s, char by) {
    std::vector<std::string> r;
    if (s.empty() || s == "-") return r;
    std::istringstream in { s };
    for (std::string x; std::getline(in, x, by);) r.push_back(x);
    return r;
}
static std::shared_ptr<tt::data const> type(std::string const& s) {
    if (s == "boolean") return std::make_shared<tt::boolean>();
    if (s == "int4") return std::make_shared<tt::int4>();
    if (s == "int8") return std::make_shared<tt::int8>();
    if (s == "float8") return std::make_shared<tt::float8>();
    if (s == "decimal") return std::make_shared<tt::decimal>();
    if (s == "date") return std::make_shared<tt::date>();
    if (s == "time" || s == "timetz") return std::make_shared<tt::time_of_day>(tt::with_time_zone_t { s == "timetz" });
    if (s == "timestamp" || s == "timestamptz") return std::make_shared<tt::time_point>(tt::with_time_zone_t { s == "timestamptz" });
    if (s[0] == '[') { // a table: columns in brackets
        std::vector<tt::table::column_type> cs;
        for (auto&& c : split(s.substr(1, s.size() - 2), ';')) cs.emplace_back(c.substr(0, c.find('/')), type(c.substr(c.find('/') + 1)));
        return std::make_shared<tt::table>(cs);
    }
    return std::make_shared<tt::character>(tt::varying);
}
struct world {
    std::shared_ptr<yugawara::schema::configurable_provider> schemas { std::make_shared<yugawara::schema::configurable_provider>() };
    struct part {
        std::shared_ptr<yugawara::schema::declaration> decl;
        std::shared_ptr<storage::configurable_provider> store;
        std::shared_ptr<yugawara::function::configurable_provider> functions;
        std::shared_ptr<yugawara::aggregate::configurable_provider> aggregates;
    };
    std::map<std::string, part> parts {};
    std::vector<takatori::util::maybe_shared_ptr<yugawara::schema::declaration const>> path {};
    std::shared_ptr<yugawara::schema::declaration> first {};
    std::map<void const*, std::string> owner {}; // tables, indexes, functions by their schema
    placeholder_map given {};
    std::shared_ptr<yugawara::variable::configurable_provider> hosts {};
};
static world w {};
static std::size_t ids = 1;
static std::vector<std::shared_ptr<tt::data const>> types(std::string const& s) {
    std::vector<std::shared_ptr<tt::data const>> r;
    for (auto&& x : split(s, ',')) r.push_back(type(x));
    return r;
}
static std::vector<storage::index::key> keys(storage::table const& t, std::string const& s) {
    std::vector<storage::index::key> r;
    for (auto&& x : split(s, ',')) {
        bool down = x.back() == '-';
        auto name = down || x.back() == '+' ? x.substr(0, x.size() - 1) : x;
        for (auto&& c : t.columns()) if (c.simple_name() == name) r.emplace_back(c, down ? tr::sort_direction::descendant : tr::sort_direction::ascendant);
    }
    return r;
}
static void define(std::string const& item) {
    auto f = split(item, ':');
    world::part nowhere {};
    auto& p = f[0] == "G" || f[0] == "H" ? nowhere : w.parts[f.at(1)];
    if (f[0] == "S" || f[0] == "s") { // a schema; s: not searched for names
        p.store = std::make_shared<storage::configurable_provider>();
        p.functions = std::make_shared<yugawara::function::configurable_provider>();
        p.aggregates = std::make_shared<yugawara::aggregate::configurable_provider>();
        p.decl = std::make_shared<yugawara::schema::declaration>(f[1], p.store, std::make_shared<yugawara::variable::configurable_provider>(), p.functions, p.aggregates);
        w.schemas->add(p.decl);
        w.owner[p.decl.get()] = f[1];
        if (!w.first) w.first = p.decl;
        if (f[0] == "S") w.path.emplace_back(p.decl);
    } else if (f[0] == "T") { // a table: schema:name:columns:keys ("-": no primary index, "+": one without keys)
        storage::columns_type cs {};
        for (auto&& c : split(f.at(3), ',')) {
            auto g = split(c, '/');
            auto flags = g.size() > 2 ? g[2] : "";
            storage::column_feature_set fs {};
            if (flags.find('h') != std::string::npos) fs.insert(storage::column_feature::hidden);
            cs.push_back(std::make_unique<storage::column>(g.at(0), type(g.at(1)), yugawara::variable::criteria { yugawara::variable::nullity { flags.find('n') == std::string::npos } }, storage::column_value {}, fs));
        }
        auto t = std::make_shared<storage::table>(ids++, f[2], std::move(cs));
        p.store->add_table(t);
        w.owner[t.get()] = f[1];
        if (f.at(4) != "-") {
            auto i = std::make_shared<storage::index>(ids++, t, f[2], f[4] == "+" ? std::vector<storage::index::key> {} : keys(*t, f[4]), std::vector<storage::index::column_ref> {}, storage::index_feature_set { storage::index_feature::primary });
            p.store->add_index(i);
            w.owner[i.get()] = f[1];
        }
    } else if (f[0] == "I") { // another index: schema:table:name:keys
        auto t = p.store->find_table(f.at(2));
        auto i = std::make_shared<storage::index>(ids++, t, f.at(3), keys(*t, f.at(4)), std::vector<storage::index::column_ref> {}, storage::index_feature_set {});
        p.store->add_index(i);
        w.owner[i.get()] = f[1];
    } else if (f[0] == "G") { // a value for a parameter: name (% for a colon), type
        auto n = f.at(1);
        if (n[0] == '%') n[0] = ':';
        auto add = [&](auto v, auto t) {
            switch (ids++ % 4) {
                case 0: w.given.add(n, { std::move(v), std::move(t) }); break;
                case 1: w.given.add(n, { std::move(t), std::move(v) }); break;
                case 2: w.given.add(n, { std::make_shared<decltype(v)>(std::move(v)), std::make_shared<decltype(t)>(std::move(t)) }); break;
                default: w.given.add(n, { std::make_shared<decltype(t)>(std::move(t)), std::make_shared<decltype(v)>(std::move(v)) }); break;
            }
        };
        if (f[2] == "int4") add(tv::int4 { 7 }, tt::int4 {});
        else if (f[2] == "int8") add(tv::int8 { 7 }, tt::int8 {});
        else if (f[2] == "boolean") add(tv::boolean { true }, tt::boolean {});
        else add(tv::character { "p" }, tt::character { tt::varying });
    } else if (f[0] == "H") { // a variable for a parameter
        auto n = f.at(1);
        if (n[0] == '%') n[0] = ':';
        if (!w.hosts) w.hosts = std::make_shared<yugawara::variable::configurable_provider>();
        w.hosts->add(std::make_shared<yugawara::variable::declaration>(n, type(f.at(2))));
    } else if (f[0] == "F") { // a function: schema:name:result:parameters:kind
        auto d = std::make_shared<yugawara::function::declaration>(ids++, f.at(2), type(f.at(3)), types(f.size() > 4 ? f[4] : ""), yugawara::function::function_feature_set { f.size() > 5 && f[5] == "table" ? yugawara::function::function_feature::table_valued_function : yugawara::function::function_feature::scalar_function });
        p.functions->add(d);
        w.owner[d.get()] = f[1];
    } else { // a set function
        auto d = std::make_shared<yugawara::aggregate::declaration>(ids++, f.at(2), type(f.at(3)), types(f.size() > 4 ? f[4] : ""));
        p.aggregates->add(d);
        w.owner[d.get()] = f[1];
    }
}

// --- printing

static std::string show(tv::data const& v) {
    std::ostringstream o;
    switch (v.kind()) {
        case tv::value_kind::character: return "'" + std::string { static_cast<tv::character const&>(v).get() } + "'";
        case tv::value_kind::unknown: return "null";
        case tv::value_kind::boolean: return static_cast<tv::boolean const&>(v).get() ? "true" : "false";
        default: o << v; return o.str();
    }
}
static std::string show(tt::data const& t) {
    std::ostringstream o;
    o << t;
    auto s = o.str();
    return s.size() > 2 && s.substr(s.size() - 2) == "()" ? s.substr(0, s.size() - 2) : s;
}
template<class E> static std::string label(E e) { return std::string { to_string_view(e) }; }
static std::string name_of(void const* p, std::string_view n) {
    auto i = w.owner.find(p);
    return (i == w.owner.end() ? "?" : i->second) + "." + std::string { n };
}
static std::string name_of(storage::relation const& t) { return name_of(&t, t.simple_name()); }
static std::string name_of(storage::index const& i) { return name_of(i.table()) + (i.simple_name() == i.table().simple_name() ? "" : "#" + std::string { i.simple_name() }); }
template<class D> static std::string callable(D const& d) {
    std::string r { name_of(&d, d.name()) };
    for (auto&& t : d.shared_parameter_types()) r += "~" + show(*t);
    return r;
}

class printer {
public:
    std::string graph(tr::graph_type const& g, std::string const& path, std::vector<ys::parameter> const& ps = {}, variable const* out = nullptr, std::vector<yr::subquery::mapping_type> const* ms = nullptr) {
        std::unordered_map<variable, std::string> inside; // a query sees what it is handed, nothing else
        for (auto&& p : ps) inside.insert_or_assign(p.destination(), of(p.source()));
        known_.swap(inside);
        std::unordered_set<variable> handed;
        for (auto&& p : ps) handed.insert(p.destination());
        auto reach = here_;
        here_ = handed;
        handed_.swap(handed);
        std::set<tr::expression const*> outer;
        outer.swap(seen_);
        std::string r;
        for (auto&& e : g.elements()) if (e->outs().empty()) r += node(*e, path);
        if (auto o = g.open_output()) r += node(o->owner(), path);
        if (seen_.size() != g.size()) r += " LOST " + std::to_string(g.size() - seen_.size());
        seen_.swap(outer);
        if (out != nullptr) r += ">" + of(*out);
        std::vector<std::string> taken;
        if (ms != nullptr) for (auto&& m : *ms) taken.push_back(of(m.source()));
        known_.swap(inside);
        handed_.swap(handed);
        here_ = reach;
        if (ms != nullptr) here_ = handed_;
        std::size_t i = 0;
        if (ms != nullptr) for (auto&& m : *ms) put(m.destination(), taken[i++]);
        return r;
    }
    std::string expr(ts::expression const& e, std::string const& path) {
        using namespace takatori::scalar;
        auto sub = [&](expression const& x) { return expr(x, path); };
        switch (e.kind()) {
            case expression_kind::immediate: { auto&& x = static_cast<immediate const&>(e); return show(x.value()) + ":" + show(x.type()); }
            case expression_kind::variable_reference: return of(static_cast<variable_reference const&>(e).variable());
            case expression_kind::unary: { auto&& x = static_cast<unary const&>(e); return label(x.operator_kind()) + "(" + sub(x.operand()) + ")"; }
            case expression_kind::cast: { auto&& x = static_cast<cast const&>(e); return "cast(" + sub(x.operand()) + " as " + show(x.type()) + (x.loss_policy() == cast_loss_policy::ignore ? "" : " or error") + ")"; }
            case expression_kind::binary: { auto&& x = static_cast<binary const&>(e); return label(x.operator_kind()) + "(" + sub(x.left()) + "," + sub(x.right()) + ")"; }
            case expression_kind::compare: { auto&& x = static_cast<compare const&>(e); return label(x.operator_kind()) + "(" + sub(x.left()) + "," + sub(x.right()) + ")"; }
            case expression_kind::match: { auto&& x = static_cast<match const&>(e); return label(x.operator_kind()) + "(" + sub(x.input()) + "," + sub(x.pattern()) + "," + sub(x.escape()) + ")"; }
            case expression_kind::conditional: {
                auto&& x = static_cast<conditional const&>(e);
                std::string r = "case(";
                for (auto&& a : x.alternatives()) r += sub(a.condition()) + "?" + sub(a.body()) + ",";
                return r + (x.default_expression() ? sub(*x.default_expression()) : "") + ")";
            }
            case expression_kind::coalesce: return "coalesce(" + list(static_cast<coalesce const&>(e).alternatives(), path) + ")";
            case expression_kind::let: {
                auto&& x = static_cast<let const&>(e);
                for (auto&& v : x.variables()) put(v.variable(), sub(v.value()));
                return sub(x.body());
            }
            case expression_kind::function_call: { auto&& x = static_cast<function_call const&>(e); return callable(x.function().get()) + "(" + list(x.arguments(), path) + ")"; }
            case expression_kind::extension: {
                auto&& x = static_cast<extension const&>(e);
                auto inner = path + "q";
                switch (x.extension_id()) {
                    case ys::aggregate_function_call::extension_tag: { auto&& y = static_cast<ys::aggregate_function_call const&>(x); return "RAW " + callable(y.function().get()) + "(" + list(y.arguments(), path) + ")"; }
                    case ys::subquery::extension_tag: { auto&& y = static_cast<ys::subquery const&>(x); return "query{" + graph(y.query_graph(), inner, y.parameters(), &y.output_column()) + "}"; }
                    case ys::exists::extension_tag: { auto&& y = static_cast<ys::exists const&>(x); return "exists{" + graph(y.query_graph(), inner, y.parameters()) + "}"; }
                    default: { auto&& y = static_cast<ys::quantified_compare const&>(x); return label(y.operator_kind()) + label(y.quantifier()) + "(" + sub(y.left()) + ",{" + graph(y.query_graph(), inner, y.parameters(), &y.right_column()) + "})"; }
                }
            }
        }
        return "?";
    }
    std::string of(variable const& v) {
        if (v.reference().kind == "column") return "column " + std::string { v.reference().label };
        if (v.reference().kind == "external") return "external " + std::string { v.reference().label };
        auto i = known_.find(v);
        return i == known_.end() ? "UNBOUND" : here_.count(v) == 0 ? "UNREACHABLE " + i->second : i->second;
    }

private:
    std::unordered_map<variable, std::string> known_ {};
    std::unordered_set<variable> here_ {}; // what the current operator has: only what comes from its inputs
    std::unordered_set<variable> handed_ {}; // and what the query is handed
    std::set<tr::expression const*> seen_ {};
    std::unordered_set<variable> left_ {}; // of the two inputs just merged
    void put(variable const& v, std::string s) { here_.insert(v); if (!known_.emplace(v, std::move(s)).second) known_[v] = "TWICE"; }
    template<class T> std::string list(T const& es, std::string const& path) {
        std::string r;
        for (auto&& e : es) r += (r.empty() ? "" : ",") + expr(e, path);
        return r;
    }
    std::string vars(std::vector<variable> const& vs) {
        std::string r;
        for (auto&& v : vs) r += (r.empty() ? "" : ",") + of(v);
        return r;
    }
    std::string up(tr::input_port const& p, std::string const& path) { return p.opposite() ? node(p.opposite()->owner(), path) : "OPEN"; }
    template<class N> std::string merge(N const& n, std::string const& path, std::string& right) {
        auto l = up(n.left(), path + "l");
        left_ = here_;
        auto left = here_;
        right = up(n.right(), path + "r");
        here_.insert(left.begin(), left.end());
        left_.swap(left);
        return l;
    }
    template<class N> std::string pairs(N const& n, std::string const& path) {
        std::string r, m, l = merge(n, path, r);
        for (auto&& k : n.group_key_pairs()) m += (m.empty() ? "" : ",") + of(k.left()) + "|" + of(k.right());
        here_ = left_;
        return label(N::tag) + " " + label(n.quantifier()) + "[" + l + "][" + r + "](" + m + ")";
    }
    std::string node(tr::expression const& e, std::string const& path) {
        using namespace takatori::relation;
        seen_.insert(&e);
        auto at = path.empty() ? std::string { "" } : "@" + path;
        switch (e.kind()) {
            case expression_kind::scan: {
                auto&& x = static_cast<scan const&>(e);
                auto&& t = x.source().get().table();
                here_ = handed_;
                for (auto&& c : x.columns()) {
                    auto n = std::string { c.source().reference().label };
                    bool its = false;
                    for (auto&& d : t.columns()) its = its || &d == c.source().reference().declaration;
                    put(c.destination(), std::string { t.simple_name() } + "." + n + at + (its ? "" : " of another table"));
                }
                return "scan " + name_of(x.source().get()) + at + (x.limit() ? " LIMITED" : "");
            }
            case expression_kind::values: {
                auto&& x = static_cast<values const&>(e);
                std::string r = "values" + at;
                here_ = handed_;
                for (auto&& row : x.rows()) r += "(" + list(row.elements(), path) + ")";
                std::size_t i = 0;
                for (auto&& c : x.columns()) put(c, "v" + std::to_string(++i) + at);
                return r;
            }
            case expression_kind::filter: {
                auto&& x = static_cast<filter const&>(e);
                auto r = up(x.input(), path);
                return r + "|filter " + expr(x.condition(), path);
            }
            case expression_kind::project: {
                auto&& x = static_cast<project const&>(e);
                auto r = up(x.input(), path);
                for (auto&& c : x.columns()) put(c.variable(), expr(c.value(), path));
                return r;
            }
            case expression_kind::apply: {
                auto&& x = static_cast<apply const&>(e);
                auto r = up(x.input(), path + "a");
                auto call = callable(x.function().get());
                r += "|apply " + label(x.operator_kind()) + " " + call + "(" + list(x.arguments(), path) + ")";
                for (auto&& c : x.columns()) put(c.variable(), call + "#" + std::to_string(c.position() + 1) + at);
                return r;
            }
            case expression_kind::emit: {
                auto&& x = static_cast<emit const&>(e);
                auto r = up(x.input(), path) + "|emit ";
                bool first = true;
                for (auto&& c : x.columns()) { r += (first ? "" : ",") + (c.name() ? *c.name() : "") + "=" + of(c.source()); first = false; }
                return r;
            }
            case expression_kind::write: {
                auto&& x = static_cast<write const&>(e);
                auto r = up(x.input(), path) + "|" + label(x.operator_kind()) + " " + name_of(x.destination().get());
                auto maps = [&](std::vector<mapping_element> const& ms) {
                    std::string s;
                    for (auto&& m : ms) {
                        bool its = false;
                        for (auto&& d : x.destination().get().table().columns()) its = its || &d == m.destination().reference().declaration;
                        s += (s.empty() ? "" : ",") + std::string { m.destination().reference().label } + (its ? "" : " of another table") + "=" + of(m.source());
                    }
                    return s;
                };
                r += " keys(" + maps(x.keys()) + ")";
                return r + " set(" + maps(x.columns()) + ")";
            }
            case expression_kind::join: {
                auto&& x = static_cast<intermediate::join const&>(e);
                std::string r, l = merge(x, path, r);
                return "join " + label(x.operator_kind()) + "[" + l + "][" + r + "](" + (x.condition() ? expr(*x.condition(), path) : "") + ")";
            }
            case expression_kind::distinct: {
                auto&& x = static_cast<intermediate::distinct const&>(e);
                auto r = up(x.input(), path);
                return r + "|distinct " + vars(x.group_keys());
            }
            case expression_kind::limit: {
                auto&& x = static_cast<intermediate::limit const&>(e);
                auto r = up(x.input(), path) + "|limit " + (x.count() ? std::to_string(*x.count()) : "") + (x.group_keys().empty() ? "" : " GROUPED");
                for (auto&& k : x.sort_keys()) r += " by " + of(k.variable()) + (k.direction() == sort_direction::ascendant ? "+" : "-");
                return r;
            }
            case expression_kind::union_: {
                auto&& x = static_cast<intermediate::union_ const&>(e);
                std::string r, l = merge(x, path, r);
                std::vector<std::string> us;
                for (auto&& m : x.mappings()) us.push_back("u(" + (m.left() ? of(*m.left()) : "") + "|" + (m.right() ? of(*m.right()) : "") + ")");
                here_ = handed_;
                std::size_t i = 0;
                for (auto&& m : x.mappings()) put(m.destination(), us[i++]);
                return "union " + label(x.quantifier()) + "[" + l + "][" + r + "]";
            }
            case expression_kind::difference: return pairs(static_cast<intermediate::difference const&>(e), path);
            case expression_kind::intersection: return pairs(static_cast<intermediate::intersection const&>(e), path);
            case expression_kind::aggregate: {
                auto&& x = static_cast<intermediate::aggregate const&>(e);
                auto r = up(x.input(), path);
                r += "|group " + vars(x.group_keys());
                std::vector<std::string> cs;
                for (auto&& c : x.columns()) cs.push_back(callable(c.function().get()) + "(" + vars(c.arguments()) + ")");
                here_ = handed_;
                for (auto&& k : x.group_keys()) here_.insert(k);
                std::size_t i = 0;
                for (auto&& c : x.columns()) put(c.destination(), cs[i++]);
                std::sort(cs.begin(), cs.end());
                r += " do ";
                cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
                r += "{";
                for (i = 0; i < cs.size(); ++i) r += (i ? ";" : "") + cs[i];
                r += "}";
                return r;
            }
            case expression_kind::extension: {
                auto&& x = static_cast<yr::subquery const&>(e);
                return "sub[" + graph(x.query_graph(), path + "s", {}, nullptr, &x.mappings()) + "]";
            }
        }
        return "?";
    }
};

static std::string show(storage::column_value const& v) {
    std::ostringstream o;
    if (v.value) o << show(*v.value);
    if (v.function) o << callable(*v.function) << "()";
    if (v.sequence) { auto&& s = *v.sequence; o << "sequence(" << s.simple_name << s.initial_value << "," << s.increment_value << "," << s.min_value << "," << s.max_value << "," << s.cycle << (s.definition_id ? ",defined" : "") << ")"; }
    return o.str();
}
static std::string keys_of(storage::index const& i) {
    std::string r;
    for (auto&& k : i.keys()) {
        bool its = false;
        for (auto&& c : i.table().columns()) its = its || &c == &k.column();
        r += (r.empty() ? "" : ",") + std::string { k.column().simple_name() } + (k.direction() == tr::sort_direction::ascendant ? "+" : "-") + (its ? "" : " of another table");
    }
    if (!i.values().empty()) r += " values";
    if (i.definition_id()) r += " defined";
    if (!i.description().empty()) r += " '" + i.description() + "'";
    return r;
}
static std::string show(st::details::table_privilege_element const& e) {
    std::string r = " " + name_of(e.table.get()) + "(";
    auto actions = [](auto&& as) { std::string s; for (auto&& a : as) s += (s.empty() ? "" : "/") + label(a.action_kind()); return s; };
    r += actions(e.defaults) + ")";
    for (auto&& x : e.entries) r += "[" + label(x.kind) + " " + x.user + " " + actions(x.privileges) + "]";
    return r;
}
static std::string schema(takatori::descriptor::schema const& s) { return std::string { s.get().name() }; }
static std::string show(st::statement const& s) {
    using K = st::statement_kind;
    std::string r;
    switch (s.kind()) {
        case K::empty: return "empty";
        case K::create_table: {
            auto&& p = static_cast<st::create_table const&>(s).parts;
            auto&& t = static_cast<storage::table const&>(std::get<1>(p).get());
            auto&& i = std::get<2>(p).get();
            r = "create table " + schema(std::get<0>(p)) + "." + std::string { t.simple_name() } + (t.definition_id() ? " defined" : "") + (t.description().empty() ? "" : " '" + t.description() + "'");
            for (auto&& c : t.columns()) {
                r += "(" + std::string { c.simple_name() } + " " + show(c.type()) + (c.criteria().nullity().nullable() ? "?" : "") + (c.default_value() ? " = " + show(c.default_value()) : "");
                r += (c.features().contains(storage::column_feature::read_only) ? " always" : "");
                r += (c.features().contains(storage::column_feature::hidden) || c.features().contains(storage::column_feature::synthesized) ? " hidden" : "");
                r += (c.description().empty() ? "" : " '" + c.description() + "'") + ")";
            }
            r += " keys " + std::string { i.simple_name() } + keys_of(i) + (&i.table() == &t ? "" : " OF ANOTHER") + (i.features() == storage::index_feature_set { storage::index_feature::primary } ? "" : " ODD");
            return r;
        }
        case K::create_index: {
            auto&& p = static_cast<st::create_index const&>(s).parts;
            auto&& i = std::get<1>(p).get();
            return "create index " + schema(std::get<0>(p)) + "." + std::string { i.simple_name() } + " on " + name_of(i.table()) + " keys " + keys_of(i) + (i.features() == storage::index_feature_set {} ? "" : " ODD");
        }
        case K::rename_table: { auto&& p = static_cast<st::rename_table const&>(s).parts; return "rename table " + schema(std::get<0>(p)) + "/" + name_of(std::get<1>(p).get()) + " to " + std::get<2>(p); }
        case K::rename_column: { auto&& p = static_cast<st::rename_column const&>(s).parts; return "rename column " + name_of(std::get<0>(p).get()) + " " + std::string { std::get<1>(p).reference().label } + " to " + std::get<2>(p); }
        case K::rename_index: { auto&& p = static_cast<st::rename_index const&>(s).parts; return "rename index " + schema(std::get<0>(p)) + "/" + name_of(std::get<1>(p).get()) + " to " + std::get<2>(p); }
        case K::drop_table: { auto&& p = static_cast<st::drop_table const&>(s).parts; return "drop table " + schema(std::get<0>(p)) + "/" + name_of(std::get<1>(p).get()); }
        case K::drop_index: { auto&& p = static_cast<st::drop_index const&>(s).parts; return "drop index " + schema(std::get<0>(p)) + "/" + name_of(std::get<1>(p).get()); }
        case K::truncate_table: { auto&& x = static_cast<st::truncate_table const&>(s); return "truncate " + name_of(x.target.get()) + (x.options.restart ? " restart" : ""); }
        case K::grant_table: r = "grant"; for (auto&& e : std::get<0>(static_cast<st::grant_table const&>(s).parts)) r += show(e); return r;
        case K::revoke_table: r = "revoke"; for (auto&& e : std::get<0>(static_cast<st::revoke_table const&>(s).parts)) r += show(e); return r;
        case K::write: {
            auto&& x = static_cast<st::write const&>(s);
            r = "write " + label(x.operator_kind) + " " + name_of(x.destination.get()) + " (";
            bool first = true;
            for (auto&& c : x.columns) { r += (first ? "" : ",") + std::string { c.reference().label }; first = false; }
            r += ")";
            printer p {};
            for (auto&& t : x.tuples) {
                r += "(";
                first = true;
                for (auto&& e : t.elements) { r += (first ? "" : ",") + p.expr(*e, ""); first = false; }
                r += ")";
            }
            return r;
        }
    }
    return "?";
}

static parser::sql_parser parse {};
static analyzer::sql_analyzer analyze {};

static std::string catalog() { // what the statements may not change
    std::ostringstream o;
    for (auto&& [n, p] : w.parts) {
        o << n << p.decl.get() << p.store.get();
        p.store->each_relation([&](std::string_view id, std::shared_ptr<storage::relation const> const& r) {
            o << id << r.get();
            for (auto&& c : std::static_pointer_cast<storage::table const>(r)->columns()) o << &c << c.simple_name() << show(c.type()) << c.criteria().nullity().nullable() << show(c.default_value()) << c.features().contains(storage::column_feature::hidden);
        });
        p.store->each_index([&](std::string_view id, std::shared_ptr<storage::index const> const& i) { o << id << i.get() << keys_of(*i); });
    }
    return o.str();
}

static std::string answer(std::string const& settings, std::string const& sql) {
    auto parsed = parse("", sql);
    if (!parsed) return "NOT SQL " + std::string { parsed.diagnostic().message() };
    auto&& unit = *parsed.value();
    if (unit.statements().size() != 1) return "NOT ONE STATEMENT";
    analyzer::sql_analyzer_options o { std::make_shared<yugawara::schema::catalog>("c", w.schemas), std::make_shared<yugawara::schema::search_path>(w.path), w.first };
    auto on = [&](char c) { return settings.find(c) != std::string::npos; };
    o.prefer_write_statement() = on('w');
    o.default_sequence_cycle() = on('c');
    o.lowercase_regular_identifiers() = on('l');
    if (on('h')) o.host_parameter_declaration_starts_with_colon() = true;
    if (on('n')) o.allow_context_independent_null() = !o.allow_context_independent_null();
    auto r = analyze(o, *unit.statements()[0], unit, w.given, w.hosts ? takatori::util::optional_ptr<yugawara::variable::provider const> { *w.hosts } : takatori::util::optional_ptr<yugawara::variable::provider const> {});
    if (!r) {
        std::string s = "error";
        if (r.element<analyzer::sql_analyzer_result_kind::diagnostics>().empty()) return "error without a reason";
        for (auto&& d : r.element<analyzer::sql_analyzer_result_kind::diagnostics>()) {
            std::ostringstream c;
            auto a = d.location().first(), b = d.location().last();
            c << d.code() << "@";
            if (d.location().source().get() != unit.document().get()) c << "NOWHERE"; else c << a << "-" << b;
            s += " " + c.str();
        }
        return s;
    }
    if (r.kind() == analyzer::sql_analyzer_result_kind::execution_plan) {
        printer p {};
        return "plan " + p.graph(r.element<analyzer::sql_analyzer_result_kind::execution_plan>(), "");
    }
    return "statement " + show(r.element<analyzer::sql_analyzer_result_kind::statement>());
}

int main() {
    std::string last;
    for (std::string line; std::getline(std::cin, line);) {
        if (line.compare(0, 2, "W ") == 0) {
            auto tab = line.find('\t');
            if (line.substr(0, tab) != last) {
                last = line.substr(0, tab);
                w = {};
                ids = 1;
                for (auto&& x : split(last.substr(2), ' ')) define(x);
            }
            if (tab == std::string::npos) {
                std::puts("ok");
                std::fflush(stdout);
                continue;
            }
            line = line.substr(tab + 1);
        }
        auto at = line.find(' ', 2);
        auto before = catalog();
        auto a = answer(line.substr(2, at - 2), mzana::unhex(line.substr(at + 1)));
        if (catalog() != before) { a += " CHANGED"; last.clear(); }
        for (auto& c : a) if (c == '\n') c = ' ';
        std::puts(a.c_str());
        std::fflush(stdout);
    }
}
