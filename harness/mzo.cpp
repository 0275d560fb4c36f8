// sources: src/mizugaki/parser/sql_parser_options.cpp
// Replays histories of option objects and element maps.
#include <algorithm>
#include <cstdint>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <mizugaki/parser/sql_parser_options.h>
#include <mizugaki/parser/sql_parser_element_kind.h>
using namespace mizugaki::parser;
using K = sql_parser_element_kind;
static constexpr std::size_t count = 20;

template<class V> struct conv { static V to(std::size_t v) { return static_cast<V>(v); } static std::string from(V const& v) { std::ostringstream o; o << v; return o.str(); } };
template<> struct conv<std::string> { static std::string to(std::size_t v) { return v == 0 ? std::string {} : std::to_string(v); } static std::string from(std::string const& v) { return v.empty() ? "0" : v; } };
template<> struct conv<std::optional<std::size_t>> {
    static std::optional<std::size_t> to(std::size_t v) { return v == 0 ? std::nullopt : std::optional<std::size_t> { v }; }
    static std::string from(std::optional<std::size_t> const& v) { return std::to_string(v.value_or(0)); } };

template<class M, std::size_t I = 0> static auto get(M& m, std::size_t k) -> decltype(&m.template get<K::statement>()) {
    if constexpr (I < count) {
        if (k == I) return &m.template get<static_cast<K>(I)>();
        return get<M, I + 1>(m, k);
    } else { std::abort(); }
}
// all ways of reading one entry
template<class V> static std::string entry(sql_parser_element_map<V>& m, std::size_t k) {
    auto const& c = m;
    std::string r = conv<V>::from(m[static_cast<K>(k)]);
    if (conv<V>::from(c[static_cast<K>(k)]) != r || conv<V>::from(*get(m, k)) != r || conv<V>::from(*get(c, k)) != r
            || &m[static_cast<K>(k)] != &c[static_cast<K>(k)] || get(m, k) != &m[static_cast<K>(k)] || get(c, k) != get(m, k)) {
        r += "!" + conv<V>::from(c[static_cast<K>(k)]) + "!" + conv<V>::from(*get(m, k)) + "!" + conv<V>::from(*get(c, k));
    }
    return r;
}
template<class V> static std::string row(sql_parser_element_map<V>& m) {
    std::string r;
    for (std::size_t k = 0; k < count; ++k) r += (k ? "," : "") + entry(m, k);
    return r;
}
template<class T> static std::string same(T const& a, T const& b) {
    std::string r = std::to_string(static_cast<unsigned long long>(a));
    if (&a != &b || a != b) r += "!" + std::to_string(static_cast<unsigned long long>(b));
    return r;
}
using opt = sql_parser_options;
static std::string show(opt& o) {
    auto const& c = o;
    std::string r = same<std::size_t>(o.max_expected_candidates(), c.max_expected_candidates()) + "," + same<std::size_t>(o.tree_node_limit(), c.tree_node_limit())
        + "," + same<std::size_t>(o.tree_depth_limit(), c.tree_depth_limit()) + "," + same<bool>(o.enable_description_comments(), c.enable_description_comments())
        + "," + same<int>(o.debug(), c.debug()) + "," + row(o.element_limits());
    if (&o.element_limits() != &c.element_limits()) r += "!";
    return r;
}

template<class V> struct machine {
    std::vector<std::unique_ptr<opt>> os;
    std::vector<sql_parser_element_map<V>> ms;
    explicit machine(std::size_t n) : os(n), ms(n) { os[0] = std::make_unique<opt>(); }
    void step(std::vector<std::string> const& f) {
        auto i = static_cast<std::size_t>(std::stoul(f[1])) - 1;
        auto num = [&](std::size_t p) { return static_cast<std::size_t>(std::stoull(f[p])); };
        auto const& op = f[0];
        auto const& w = f[4];
        if (op == "new") { os[i] = std::make_unique<opt>(); }
        else if (op == "newmap") { ms[i] = {}; }
        else if (op == "set") {
            if (f[2] == "max_expected_candidates") os[i]->max_expected_candidates() = num(3);
            else if (f[2] == "tree_node_limit") os[i]->tree_node_limit() = num(3);
            else if (f[2] == "tree_depth_limit") os[i]->tree_depth_limit() = num(3);
            else if (f[2] == "enable_description_comments") os[i]->enable_description_comments() = num(3) != 0;
            else if (f[2] == "debug") os[i]->debug() = static_cast<int>(num(3));
            else std::abort();
        }
        else if (op == "limit") { auto& m = os[i]->element_limits(); if (w == "get") *get(m, num(2)) = num(3); else m[static_cast<K>(num(2))] = num(3); }
        else if (op == "map") { if (w == "get") *get(ms[i], num(2)) = conv<V>::to(num(3)); else ms[i][static_cast<K>(num(2))] = conv<V>::to(num(3)); }
        else if (op == "two") {
            auto& m = os[i]->element_limits();
            auto& a = m[static_cast<K>(num(2))];
            auto& b = *get(m, num(4));
            (void) show(*os[i]);
            a = num(3);
            b = num(5);
        }
        else if (op == "moveopt") {
            auto j = num(2) - 1;
            if (w == "construct") os[j] = std::make_unique<opt>(std::move(*os[i])); else *os[j] = std::move(*os[i]);
            os[i].reset();
        }
        else if (op == "swapopt") { std::swap(*os[i], *os[num(2) - 1]); }
        else if (op == "copymap") {
            auto j = num(2) - 1;
            if (w == "construct") { sql_parser_element_map<V> m { ms[i] }; ms[j] = std::move(m); }
            else { auto const& m = ms[i]; ms[j] = m; }
        }
        else if (op == "export") { auto j = num(2) - 1; for (std::size_t k = 0; k < count; ++k) { ms[j][static_cast<K>(k)] = conv<V>::to(os[i]->element_limits()[static_cast<K>(k)]); } }
        else if (op == "import") {
            auto j = num(2) - 1;
            sql_parser_element_map<std::size_t> t;
            for (std::size_t k = 0; k < count; ++k) t[static_cast<K>(k)] = static_cast<std::size_t>(std::stoull(conv<V>::from(ms[i][static_cast<K>(k)])));
            os[j]->element_limits() = t;
        }
        else if (op == "copylimits") { os[num(2) - 1]->element_limits() = std::as_const(*os[i]).element_limits(); }
        else std::abort();
    }
    std::string state() {
        std::string r;
        for (auto& o : os) r += (o ? show(*o) : std::string { "-" }) + "/";
        for (auto& m : ms) r += row(m) + "/";
        return r;
    }
    std::string printed() {
        std::ostringstream s;
        for (auto& o : os) { if (o) s << std::as_const(*o).element_limits(); else s << "-"; s << "/"; }
        if constexpr (std::is_arithmetic_v<V>) { for (auto const& m : ms) s << m << "/"; }
        return s.str();
    }
};
template<class V> static std::string replay(std::size_t n, std::string const& h, bool print) {
    machine<V> m { n };
    std::istringstream in { h };
    std::string op;
    while (std::getline(in, op, ';')) {
        std::vector<std::string> f;
        std::istringstream s { op };
        for (std::string x; std::getline(s, x, ' ');) f.push_back(x);
        f.resize(6);
        m.step(f);
        (void) m.state();
        (void) m.printed();
    }
    auto a = m.state();
    auto p = m.printed();
    if (m.state() != a) a += "unstable";
    return print ? a + "\t" + p : a;
}
int main() {
    for (std::string line; std::getline(std::cin, line);) {
        if (line == "defaults") {
            std::cout << opt::default_max_expected_candidates << "," << opt::default_tree_node_limit << "," << opt::default_tree_depth_limit << ","
                << opt::default_enable_description_comments << std::endl;
            continue;
        }
        // <value type> <slots> <op>;<op>...
        auto a = line.find(' '), b = line.find(' ', a + 1);
        auto t = line.substr(0, a);
        auto n = static_cast<std::size_t>(std::stoul(line.substr(a + 1, b - a - 1)));
        auto h = line.substr(b + 1);
        std::string r;
        if (t == "z") r = replay<std::size_t>(n, h, true);
        else if (t == "s") r = replay<std::string>(n, h, false);
        else if (t == "o") r = replay<std::optional<std::size_t>>(n, h, false);
        else if (t == "u") r = replay<std::uint64_t>(n, h, true);
        else std::abort();
        std::cout << r << "\n";
    }
    return 0;
}
