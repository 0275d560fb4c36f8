// Objects of the syntax tree: built from terms of spec/MzAst.tla, compared, cloned, printed, dispatched on.
// Requests, one a line:
//   T <flags> <q> <p> <kind> <class> <term>   checks one object and keeps it; equal q: equal, equal p: alike in print
//   A <flags>                                 checks all kept objects of the same class against each other
//   X <flags>                                 checks some objects of each class against those of other classes
//   Z                                         forgets all objects
//   H <op> ...                                a history of objects (see history)
// Answer: number of facts checked, then what failed, separated by 0x1e.
#include "mzast.h"
#include <cstdlib>
#include <iostream>
#include <set>
#include <sstream>
#include <takatori/serializer/json_printer.h>
#include <typeinfo>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/type/dispatch.h>
#include <mizugaki/ast/common/vector.h>
#include <mizugaki/ast/common/optional.h>
#include <mizugaki/ast/common/rvalue_list.h>

namespace ast = mizugaki::ast;
using region_t = ast::node_region;
using mzast::of;
using mzast::constants;

namespace mzast {
template<> struct of<ast::compilation_unit> {
    static constexpr char const* name = "compilation_unit";
    template<class E, class F> static void each(E& e, F&& f) { f("statements", e.statements()); }
    static auto make() { return ast::compilation_unit(std::vector<std::unique_ptr<ast::statement::statement>> {}); }
};
}

template<class T, class = void> struct has_of : std::false_type {};
template<class T> struct has_of<T, std::void_t<decltype(of<T>::name)>> : std::true_type {};

// ------------------------------------------------------------------ terms
struct cursor {
    char const* p;
    long shift;
    char get() { return *p++; }
    void expect(char c) { if (*p != c) { std::cerr << "term: expected " << c << " at " << std::string(p).substr(0, 60) << std::endl; std::exit(9); } ++p; }
    std::string word() { std::string r; while (std::isalnum(static_cast<unsigned char>(*p)) || *p == '_' || *p == '.' || *p == '%') r += *p++; return r; }
    std::size_t number() {
        if (*p == '*') { ++p; return static_cast<std::size_t>(-1); }
        std::size_t r = 0;
        while (std::isdigit(static_cast<unsigned char>(*p))) r = r * 10 + static_cast<std::size_t>(*p++ - '0');
        return r;
    }
    region_t place(bool shifted) {
        if (*p == '-') { ++p; return {}; }
        region_t r {};
        std::size_t d = shifted ? static_cast<std::size_t>(shift) : 0;
        r.begin = number() + d;
        expect(':');
        r.end = number() + d;
        return r;
    }
};
static std::string decode(std::string const& s) {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else r += s[i];
    }
    return r;
}
static void encode(std::string& o, std::string const& s) {
    static char const* hex = "0123456789abcdef";
    for (unsigned char c : s) {
        if (std::isalnum(c)) o += static_cast<char>(c);
        else { o += '%'; o += hex[c >> 4]; o += hex[c & 15]; }
    }
}
static void put_num(std::string& o, std::size_t n) { if (n == static_cast<std::size_t>(-1)) o += '*'; else o += std::to_string(n); }
static void put_place(std::string& o, region_t const& r) {
    if (r.begin == region_t::npos && r.end == region_t::npos) { o += '-'; return; }
    put_num(o, r.begin); o += ':'; put_num(o, r.end);
}

template<class T> T blank() { if constexpr (has_of<T>::value) return of<T>::make(); else return T {}; }

void rd(cursor& c, std::string& v) { c.expect('t'); v = decode(c.word()); }
void rd(cursor& c, bool& v) { c.expect('b'); v = c.get() == '1'; }
void rd(cursor& c, std::size_t& v) { c.expect('n'); v = c.number(); }
void rd(cursor& c, region_t& v) { c.expect('d'); v = c.place(false); }
template<class T> std::enable_if_t<std::is_enum_v<T>> rd(cursor& c, T& v) {
    c.expect('e');
    auto w = c.word();
    for (auto&& x : constants<T>::table) if (w == x.first) { v = x.second; return; }
    std::cerr << "term: no constant " << w << std::endl; std::exit(9);
}
template<class T> std::enable_if_t<has_of<T>::value && !std::is_base_of_v<ast::node, T>> rd(cursor& c, T& v);
template<class T> void rd(cursor& c, ast::common::regioned<T>& v);
template<class T> void rd(cursor& c, std::optional<T>& v);
template<class T> void rd(cursor& c, std::vector<T>& v);
template<class T> void rd(cursor& c, std::unique_ptr<T>& v);
template<class T> void rd(cursor& c, ast::common::clone_wrapper<T>& v) { rd(c, *v); }
template<class T> void rd(cursor& c, ast::common::regioned<T>& v) { c.expect('m'); rd(c, v.value()); c.expect('@'); v.region() = c.place(true); }
template<class T> void rd(cursor& c, std::optional<T>& v) {
    if (*c.p == '-') { ++c.p; v.reset(); return; }
    T x = blank<T>(); rd(c, x); v.emplace(std::move(x));
}
template<class T> void rd(cursor& c, std::vector<T>& v) {
    v.clear(); c.expect('[');
    while (*c.p != ']') { T x = blank<T>(); rd(c, x); v.push_back(std::move(x)); if (*c.p == ',') ++c.p; }
    ++c.p;
}
template<class T> void fill(cursor& c, T& e) {
    bool first = true;
    of<T>::each(e, [&](char const*, auto&& v) {
        if (!first) c.expect(',');
        first = false;
        if constexpr (std::is_lvalue_reference_v<decltype(v)>) rd(c, v);
        else { std::decay_t<decltype(v)> skip {}; rd(c, skip); }
    });
    c.expect('}'); c.expect('@');
    e.region() = c.place(true);
}
template<> void fill(cursor& c, ast::compilation_unit& e) {
    rd(c, e.statements());
    c.expect('}'); c.expect('@');
    c.place(true);
}
template<class T> std::enable_if_t<has_of<T>::value && !std::is_base_of_v<ast::node, T>> rd(cursor& c, T& v) { c.expect('{'); c.word(); c.expect(' '); fill(c, v); }
template<class T> std::unique_ptr<T> build_node(cursor& c) {
    std::unique_ptr<T> r;
    if constexpr (std::is_same_v<T, ast::type::simple>) {
        cursor d = c; ast::type::kind k {}; rd(d, k);
        r = std::make_unique<T>(k);
    } else { r = of<T>::make(); }
    fill(c, *r);
    return r;
}
template<class B> std::unique_ptr<B> any_node(cursor& c) {
    using make = std::unique_ptr<B> (*)(cursor&);
    static std::map<std::string, make> const table = [] {
        std::map<std::string, make> r;
        mzdump::printer::each_class([&](auto* p, char const* n) {
            using T = std::remove_pointer_t<decltype(p)>;
            if constexpr (std::is_base_of_v<B, T>) r[n] = [](cursor& x) -> std::unique_ptr<B> { return build_node<T>(x); };
        });
        return r;
    }();
    c.expect('{');
    auto it = table.find(c.word());
    if (it == table.end()) { std::cerr << "term: class of another family at " << std::string(c.p - 20).substr(0, 60) << std::endl; std::exit(9); }
    c.expect(' ');
    return it->second(c);
}
template<class T> void rd(cursor& c, std::unique_ptr<T>& v) { if (*c.p == '-') { ++c.p; v.reset(); } else v = any_node<T>(c); }

// ---- visiting: dump, addresses of owned parts, damage
template<class F> void on_node(ast::node const& n, F&& f) {
    bool found = false;
    mzdump::printer::each_class([&](auto* p, char const*) {
        using T = std::remove_pointer_t<decltype(p)>;
        if (typeid(n) == typeid(T)) { found = true; f(const_cast<T&>(static_cast<T const&>(n))); }
    });
    if (!found) { std::cerr << "unknown class " << typeid(n).name() << std::endl; std::exit(9); }
}
struct visitor_table;
struct dumper {
    std::string o;
    void put(std::string const& v) { o += 't'; encode(o, v); }
    void put(bool v) { o += v ? "b1" : "b0"; }
    void put(std::size_t v) { o += 'n'; put_num(o, v); }
    void put(region_t const& v) { o += 'd'; put_place(o, v); }
    template<class T> std::enable_if_t<std::is_enum_v<T>> put(T v) {
        o += 'e';
        for (auto&& x : constants<T>::table) if (v == x.second) { o += x.first; return; }
        o += "?" + std::to_string(static_cast<long>(v));
    }
    template<class T> void put(ast::common::regioned<T> const& v) { o += 'm'; put(v.value()); o += '@'; put_place(o, v.region()); }
    template<class T> void put(std::optional<T> const& v) { if (v) put(*v); else o += '-'; }
    template<class T> void put(std::vector<T> const& v) { o += '['; bool f = true; for (auto&& x : v) { if (!f) o += ','; f = false; put(x); } o += ']'; }
    template<class T> void put(std::unique_ptr<T> const& v);
    template<class T> void put(ast::common::clone_wrapper<T> const& v) { put(*v); }
    template<class T> std::enable_if_t<has_of<T>::value> put(T const& e) {
        o += '{'; o += of<T>::name; o += ' ';
        bool f = true;
        of<T>::each(e, [&](char const*, auto&& v) { if (!f) o += ','; f = false; put(v); });
        o += "}@"; put_place(o, e.region());
    }
    void put(ast::compilation_unit const& e) { o += "{compilation_unit "; put(e.statements()); o += "}@-"; }
};
struct owner {
    std::set<void const*> at;
    template<class T> void put(T const&, std::enable_if_t<!has_of<T>::value>* = nullptr) {}
    template<class T> void put(ast::common::regioned<T> const&) {}
    template<class T> void put(std::optional<T> const& v) { if (v) put(*v); }
    template<class T> void put(std::vector<T> const& v) { if (!v.empty()) at.insert(v.data()); for (auto&& x : v) put(x); }
    template<class T> void put(std::unique_ptr<T> const& v);
    template<class T> void put(ast::common::clone_wrapper<T> const& v) { put(*v); }
    template<class T> std::enable_if_t<has_of<T>::value> put(T const& e) { at.insert(std::addressof(e)); of<T>::each(e, [&](char const*, auto&& v) { put(v); }); }
    void put(ast::compilation_unit const& e) { put(e.statements()); }
};
struct nodes {
    std::vector<ast::node const*> at;
    template<class T> void put(T const&, std::enable_if_t<!has_of<T>::value>* = nullptr) {}
    template<class T> void put(ast::common::regioned<T> const&) {}
    template<class T> void put(std::optional<T> const& v) { if (v) put(*v); }
    template<class T> void put(std::vector<T> const& v) { for (auto&& x : v) put(x); }
    template<class T> void put(std::unique_ptr<T> const& v);
    template<class T> void put(ast::common::clone_wrapper<T> const& v) { put(*v); }
    template<class T> std::enable_if_t<has_of<T>::value> put(T const& e) {
        if constexpr (std::is_base_of_v<ast::node, T>) at.push_back(&e);
        of<T>::each(e, [&](char const*, auto&& v) { put(v); });
    }
    void put(ast::compilation_unit const& e) { put(e.statements()); }
};
struct damage {
    void put(std::string& v) { v += "~"; if (!v.empty()) v[0] = '!'; }
    void put(bool& v) { v = !v; }
    void put(std::size_t& v) { v += 3; }
    void put(region_t& v) { v.begin += 5; v.end += 7; }
    template<class T> std::enable_if_t<std::is_enum_v<T>> put(T& v) {
        std::size_t n = std::size(constants<T>::table);
        for (std::size_t i = 0; i < n; ++i) if (v == constants<T>::table[i].second) { v = constants<T>::table[(i + 1) % n].second; return; }
    }
    template<class T> void put(ast::common::regioned<T>& v) { put(v.value()); put(v.region()); }
    template<class T> void put(std::optional<T>& v) { if (v) put(*v); }
    template<class T> void put(std::vector<T>& v) { for (auto&& x : v) put(x); if (v.size() > 1) v.pop_back(); }
    template<class T> void put(std::unique_ptr<T>& v);
    template<class T> void put(ast::common::clone_wrapper<T>& v) { put(*v); }
    template<class T> std::enable_if_t<has_of<T>::value> put(T& e) {
        of<T>::each(e, [&](char const* n, auto&& v) {
            if constexpr (std::is_lvalue_reference_v<decltype(v)>) {
                std::string p = n;
                if (p == "statement_kind" || p == "constraint_kind" || p == "type_kind" || p == "value_kind") return; // the kind stays one of its class
                put(v);
            }
        });
        put(e.region());
    }
    void put(ast::compilation_unit& e) { put(e.statements()); }
};
template<class V> void visit(V& v, ast::node const& n) {
    using fn = void (*)(V&, ast::node const&);
    static std::map<std::type_index, fn> const table = [] {
        std::map<std::type_index, fn> r;
        mzdump::printer::each_class([&](auto* p, char const*) {
            using T = std::remove_pointer_t<decltype(p)>;
            r[typeid(T)] = [](V& x, ast::node const& y) {
                if constexpr (std::is_same_v<V, damage>) x.put(const_cast<T&>(static_cast<T const&>(y))); else x.put(static_cast<T const&>(y));
            };
        });
        return r;
    }();
    auto it = table.find(typeid(n));
    if (it == table.end()) { std::cerr << "unknown class " << typeid(n).name() << std::endl; std::exit(9); }
    it->second(v, n);
}
template<class T> void dumper::put(std::unique_ptr<T> const& v) { if (v) visit(*this, *v); else o += '-'; }
template<class T> void owner::put(std::unique_ptr<T> const& v) { if (v) visit(*this, *v); }
template<class T> void nodes::put(std::unique_ptr<T> const& v) { if (v) visit(*this, *v); }
template<class T> void damage::put(std::unique_ptr<T>& v) { if (v) visit(*this, *v); }

template<class T> std::string dump(T const& e) { dumper d; if constexpr (std::is_same_v<T, ast::node>) visit(d, e); else d.put(e); return d.o; }
template<class T> std::set<void const*> owned(T const& e) { owner d; if constexpr (std::is_same_v<T, ast::node>) visit(d, e); else d.put(e); return d.at; }
template<class A, class B> bool apart(A const& a, B const& b) {
    auto x = owned(a); auto y = owned(b);
    for (auto p : x) if (y.count(p)) return false;
    return true;
}

// ------------------------------------------------------------------ families
template<class B, class N> struct fam_ { using base = B; };
template<class T> auto family_of() {
    if constexpr (std::is_base_of_v<ast::literal::literal, T>) return static_cast<ast::literal::literal*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::name::name, T>) return static_cast<ast::name::name*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::query::expression, T>) return static_cast<ast::query::expression*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::query::grouping_element, T>) return static_cast<ast::query::grouping_element*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::query::select_element, T>) return static_cast<ast::query::select_element*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::scalar::expression, T>) return static_cast<ast::scalar::expression*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::statement::statement, T>) return static_cast<ast::statement::statement*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::statement::table_element, T>) return static_cast<ast::statement::table_element*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::statement::constraint, T>) return static_cast<ast::statement::constraint*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::statement::alter_table_action, T>) return static_cast<ast::statement::alter_table_action*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::statement::alter_index_action, T>) return static_cast<ast::statement::alter_index_action*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::table::expression, T>) return static_cast<ast::table::expression*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::table::join_specification, T>) return static_cast<ast::table::join_specification*>(nullptr);
    else if constexpr (std::is_base_of_v<ast::type::type, T>) return static_cast<ast::type::type*>(nullptr);
    else return static_cast<T*>(nullptr);
}
template<class T> using base_of = std::remove_pointer_t<decltype(family_of<T>())>;

template<class B, class C, class E, class... A> auto call(C&& c, E&& e, A&&... a) {
    if constexpr (std::is_same_v<B, ast::literal::literal>) return ast::literal::dispatch(std::forward<C>(c), std::forward<E>(e), std::forward<A>(a)...);
    else if constexpr (std::is_same_v<B, ast::name::name>) return ast::name::dispatch(std::forward<C>(c), std::forward<E>(e), std::forward<A>(a)...);
    else if constexpr (std::is_same_v<B, ast::scalar::expression>) return ast::scalar::dispatch(std::forward<C>(c), std::forward<E>(e), std::forward<A>(a)...);
    else if constexpr (std::is_same_v<B, ast::type::type>) return ast::type::dispatch(std::forward<C>(c), std::forward<E>(e), std::forward<A>(a)...);
    else if constexpr (std::is_same_v<B, ast::table::expression> || std::is_same_v<B, ast::table::join_specification>) return ast::table::dispatch(std::forward<C>(c), std::forward<E>(e), std::forward<A>(a)...);
    else if constexpr (std::is_same_v<B, ast::query::expression> || std::is_same_v<B, ast::query::grouping_element> || std::is_same_v<B, ast::query::select_element>) return ast::query::dispatch(std::forward<C>(c), std::forward<E>(e), std::forward<A>(a)...);
    else return ast::statement::dispatch(std::forward<C>(c), std::forward<E>(e), std::forward<A>(a)...);
}

// ------------------------------------------------------------------ facts
struct report {
    long n = 0;
    std::vector<std::string> bad;
    void is(bool ok, std::string const& what) { ++n; if (!ok && bad.size() < 4) bad.push_back(what); }
    std::string str() const { std::string r = std::to_string(n); for (auto&& x : bad) r += "\x1e" + x; return r; }
};

struct seen {  // what a callback saw
    std::type_index type { typeid(void) };
    void const* at = nullptr;
    bool is_const = false;
    int calls = 0;
    int by = 0;
    std::string args;
};
template<class U> void note(seen& s, U& u, int by) {
    s.type = typeid(std::remove_const_t<U>); s.at = std::addressof(u); s.is_const = std::is_const_v<U>; ++s.calls; s.by = by;
}
struct every {  // takes everything
    seen& s;
    template<class U> int operator()(U&& u) { note(s, u, 1); return 41; }
    template<class U> int operator()(U&& u, int& a, std::string const& b, std::unique_ptr<int>&& c) {
        note(s, u, 2); a += 5; s.args = b; std::unique_ptr<int> mine = std::move(c); return *mine;
    }
};
template<class B, class T> struct own {  // takes T, and anything else as B
    seen& s;
    std::string operator()(T const& u) { note(s, u, 1); return "own"; }
    std::string operator()(B const& u) { note(s, u, 2); return "other"; }
};
template<class B> struct plain {  // takes the family only
    seen& s;
    void operator()(B& u, int const& k) { note(s, u, 3 + k); }
};
struct value_only {
    seen& s;
    template<class U> std::unique_ptr<int> operator()(U const& u, std::unique_ptr<int> x) { note(s, u, 4); return x; }
};

struct box {
    virtual ~box() = default;
    virtual char const* cls() const = 0;
    virtual std::string dump() const = 0;
    virtual std::string print() const = 0;
    virtual std::unique_ptr<box> copy() const = 0;
    virtual std::unique_ptr<box> move() = 0;
    virtual ast::node* node() = 0;
    virtual ast::node const* node() const = 0;
    virtual std::set<void const*> owned() const = 0;
    virtual void damage_all() = 0;
    virtual bool same_class(box const& o) const = 0;
    virtual void equality(box const& o, bool want, report& r, std::string const& what) const = 0;
    virtual bool base_equal(box const& o, bool& comparable, bool& unequal) const = 0;
    virtual void check(std::string const& flags, std::string const& kind, box const& twin, report& r) = 0;
    virtual bool assign(std::vector<int> const& path, cursor& value) = 0;
    virtual bool put_clone(std::vector<int> const& path, box const& other) = 0;
    virtual std::unique_ptr<box> sub(std::vector<int> const& path) const = 0;
};
std::unique_ptr<box> box_node(std::unique_ptr<ast::node> n);

// ---- following a path of component and element numbers
struct step_assign {
    cursor& c;
    template<class T> bool at(T& v) { rd(c, v); return true; }
};
struct step_put {
    ast::node const& n;
    template<class T> bool at(T&) { return false; }
    template<class T> bool at(std::unique_ptr<T>& v) {
        auto* p = dynamic_cast<T const*>(&n);
        if (p == nullptr) return false;
        v = takatori::util::clone_unique(*p);
        return true;
    }
};
template<class F, class T> bool walk(T& v, std::vector<int> const& path, std::size_t i, F& f);
template<class F, class T> bool go(T& v, std::vector<int> const& path, std::size_t i, F& f) { (void) v; (void) path; (void) i; (void) f; return false; }
template<class F, class T> bool go(ast::common::clone_wrapper<T>& v, std::vector<int> const& path, std::size_t i, F& f);
template<class F, class T> bool go(std::unique_ptr<T>& v, std::vector<int> const& path, std::size_t i, F& f);
template<class F, class T> bool go(std::vector<T>& v, std::vector<int> const& path, std::size_t i, F& f);
template<class F, class T> bool go_object(T& e, std::vector<int> const& path, std::size_t i, F& f);
template<class F, class T> bool go(std::optional<T>& v, std::vector<int> const& path, std::size_t i, F& f) {
    if constexpr (has_of<T>::value) return v && go_object(*v, path, i, f);
    else return v && go(*v, path, i, f);
}
template<class F, class T> bool go(std::vector<T>& v, std::vector<int> const& path, std::size_t i, F& f) {
    return static_cast<std::size_t>(path[i]) <= v.size() && walk(v[static_cast<std::size_t>(path[i] - 1)], path, i + 1, f);
}
template<class F, class T> bool go_object(T& e, std::vector<int> const& path, std::size_t i, F& f) {
    int k = 0; bool r = false;
    of<T>::each(e, [&](char const*, auto&& v) {
        ++k;
        if constexpr (std::is_lvalue_reference_v<decltype(v)>) if (k == path[i]) r = walk(v, path, i + 1, f);
    });
    return r;
}
template<class F, class T> bool go(std::unique_ptr<T>& v, std::vector<int> const& path, std::size_t i, F& f) {
    if (!v) return false;
    bool r = false;
    on_node(*v, [&](auto& e) { r = go_object(e, path, i, f); });
    return r;
}
template<class F, class T> bool go(ast::common::clone_wrapper<T>& v, std::vector<int> const& path, std::size_t i, F& f) { return go(*v, path, i, f); }
template<class F, class T> bool walk(T& v, std::vector<int> const& path, std::size_t i, F& f) {
    if (i == path.size()) return f.at(v);
    if constexpr (has_of<T>::value) return go_object(v, path, i, f);
    else return go(v, path, i, f);
}
struct step_find {
    ast::node const* n = nullptr;
    template<class T> bool at(T&) { return false; }
    template<class T> bool at(std::unique_ptr<T>& v) { n = v.get(); return n != nullptr; }
};

template<class T> std::string text_of(T const& v) { std::ostringstream o; o << v; return o.str(); }

template<class T, class = void> struct copies : std::false_type {};
template<class T> struct copies<T, std::enable_if_t<std::is_copy_constructible_v<T> && !std::is_base_of_v<ast::node, T> && !std::is_same_v<T, ast::compilation_unit>>> : std::true_type {};

template<class B> void wrappers(B const& b, std::string const& d0, report& r) {
    using W = ast::common::clone_wrapper<std::unique_ptr<B>>;
    using V = ast::common::clone_wrapper<std::vector<std::unique_ptr<B>>>;
    auto text = [](W const& w) { dumper d; d.put(*w); return d.o; };
    auto vtext = [](V const& w) { dumper d; d.put(*w); return d.o; };
    W none {};
    W w { std::unique_ptr<B>(takatori::util::clone_unique(b)) };
    W w2 { w };
    r.is(text(w2) == d0 && text(w) == d0 && (*w2).get() != (*w).get() && apart(static_cast<ast::node const&>(**w), static_cast<ast::node const&>(**w2)), "clone_wrapper: copy");
    W w3 {}; w3 = w; w3 = *&w3;
    r.is(text(w3) == d0 && (*w3).get() != (*w).get(), "clone_wrapper: assignment");
    { damage g; g.put(w2); }
    r.is(text(w) == d0 && text(w3) == d0, "clone_wrapper: copy changed, others follow");
    W w4 { std::move(w) };
    r.is(text(w4) == d0, "clone_wrapper: move");
    w4 = none;
    r.is(*w4 == nullptr && text(w3) == d0, "clone_wrapper: assignment of nothing");
    std::vector<std::unique_ptr<B>> v;
    std::string dv = "[";
    for (int i = 0; i < 3; ++i) { v.push_back(i == 1 ? nullptr : takatori::util::clone_unique(b)); dv += (i ? "," : "") + (i == 1 ? std::string("-") : d0); }
    dv += "]";
    V x { std::move(v) };
    V x2 { x };
    V x3 {}; x3 = x; x3 = *&x3;
    r.is(vtext(x2) == dv && vtext(x3) == dv && vtext(x) == dv, "clone_wrapper of a list: copy");
    { damage g; g.put(*x2); (*x2).clear(); }
    r.is(vtext(x) == dv && vtext(x3) == dv, "clone_wrapper of a list: copy changed, others follow");
    auto y = ast::common::clone_vector(static_cast<std::vector<std::unique_ptr<B>> const&>(*x));
    { dumper d; d.put(y); r.is(d.o == dv && (*x)[0].get() != y[0].get() && (*x)[2].get() != y[2].get(), "clone_vector: copy"); }
    auto z = ast::common::clone_vector(std::move(y));
    { dumper d; d.put(z); r.is(d.o == dv, "clone_vector: move"); }
    { auto b1 = takatori::util::clone_unique(b); auto b2 = takatori::util::clone_unique(b);
      auto l = ast::common::to_vector<B>({ std::move(*b1), std::move(*b2) });
      b1.reset(); b2.reset();
      dumper d; d.put(l); r.is(d.o == "[" + d0 + "," + d0 + "]", "to_vector"); }
}

template<class T> struct box_of : box {
    using B = base_of<T>;
    static constexpr bool is_node = std::is_base_of_v<ast::node, T>;
    std::unique_ptr<T> e;
    explicit box_of(std::unique_ptr<T> x) : e(std::move(x)) {}
    char const* cls() const override { return of<T>::name; }
    std::string dump() const override { return ::dump(*e); }
    std::string print() const override { if constexpr (is_node) return text_of(static_cast<ast::node const&>(*e)); else return text_of(*e); }
    std::unique_ptr<box> copy() const override {
        if constexpr (is_node) return std::make_unique<box_of>(std::unique_ptr<T>(static_cast<T const&>(*e).clone()));
        else return std::make_unique<box_of>(std::make_unique<T>(takatori::util::clone_tag, static_cast<T const&>(*e)));
    }
    std::unique_ptr<box> move() override {
        if constexpr (is_node) return std::make_unique<box_of>(std::unique_ptr<T>(std::move(*e).clone()));
        else return std::make_unique<box_of>(std::make_unique<T>(takatori::util::clone_tag, std::move(*e)));
    }
    ast::node* node() override { if constexpr (is_node) return e.get(); else return nullptr; }
    ast::node const* node() const override { if constexpr (is_node) return e.get(); else return nullptr; }
    std::set<void const*> owned() const override { return ::owned(*e); }
    void damage_all() override { damage d; d.put(*e); }
    bool same_class(box const& o) const override { return dynamic_cast<box_of const*>(&o) != nullptr; }
    void equality(box const& o, bool want, report& r, std::string const& what) const override {
        auto& x = static_cast<T const&>(*e);
        auto& y = static_cast<T const&>(*static_cast<box_of const&>(o).e);
        r.is((x == y) == want, what + ": ==");
        r.is((x != y) == !want, what + ": !=");
        if constexpr (is_node) {
            auto& p = static_cast<B const&>(x);
            auto& q = static_cast<B const&>(y);
            r.is((p == q) == want, what + ": == of the family");
            r.is((p != q) == !want, what + ": != of the family");
        }
    }
    bool base_equal(box const& o, bool& comparable, bool& unequal) const override {
        if constexpr (is_node) {
            auto* q = dynamic_cast<B const*>(o.node());
            comparable = q != nullptr;
            if (!comparable) return false;
            unequal = static_cast<B const&>(*e) != *q;
            return static_cast<B const&>(*e) == *q;
        } else {
            auto* q = dynamic_cast<box_of const*>(&o);
            comparable = q != nullptr;
            if (!comparable) return false;
            unequal = *e != *q->e;
            return *e == *q->e;
        }
    }
    void cloning(report& r) {
        std::string d0 = dump();
        auto c1 = copy();
        r.is(c1->dump() == d0, "copy differs: " + c1->dump());
        r.is(dump() == d0, "copied object changed");
        { auto a = owned(), b = c1->owned(); bool ok = true; for (auto p : a) ok = ok && !b.count(p); r.is(ok, "copy shares parts"); }
        c1->damage_all();
        r.is(dump() == d0, "changing the copy changes the original");
        auto c2 = copy(); auto c3 = c2->copy();
        r.is(c3->dump() == d0, "copy of a copy differs: " + c3->dump());
        c2->damage_all();
        r.is(c3->dump() == d0 && dump() == d0, "changing a copy changes its copy");
        c2.reset();
        r.is(c3->dump() == d0, "destroying a copy changes its copy");
        auto m = c3->move();
        r.is(m->dump() == d0, "copy by move differs: " + m->dump());
        c3->damage_all();
        r.is(m->dump() == d0, "copy by move follows its source");
        c3.reset();
        r.is(m->dump() == d0, "copy by move ends with its source");
        auto m2 = m->copy()->move();
        r.is(m2->dump() == d0, "copy by move of a copy differs");
        if constexpr (is_node) {
            std::unique_ptr<ast::node> n1(static_cast<ast::node const&>(*e).clone());
            r.is(::dump(*n1) == d0 && typeid(*n1) == typeid(T), "copy through node differs");
            std::unique_ptr<B> n2(static_cast<B const&>(*e).clone());
            r.is(::dump(static_cast<ast::node const&>(*n2)) == d0, "copy through the family differs");
            std::unique_ptr<B> n3(std::move(*n2).clone());
            n2.reset();
            r.is(::dump(static_cast<ast::node const&>(*n3)) == d0, "copy by move through the family differs");
            std::unique_ptr<ast::node> n4(std::move(static_cast<ast::node&>(*n3)).clone());
            n3.reset();
            r.is(::dump(*n4) == d0, "copy by move through node differs");
            wrappers<B>(*e, d0, r);
        } else if constexpr (copies<T>::value) {
            T x { *e };
            r.is(::dump(x) == d0 && apart(x, *e), "copied by its constructor, differs");
            { damage d; d.put(x); }
            r.is(dump() == d0, "changing what its constructor copied changes the original");
            auto o = ast::common::clone_optional(std::optional<T> { *e });
            r.is(o && ::dump(*o) == d0, "clone_optional");
            if constexpr (std::is_copy_assignable_v<T>) {
                x = *e;
                r.is(::dump(x) == d0 && apart(x, *e), "assigned, differs");
                { damage d; d.put(x); }
                r.is(dump() == d0, "changing what was assigned changes the original");
            }
        }
        if constexpr (!is_node && std::is_move_constructible_v<T>) {
            auto s = std::make_unique<T>(takatori::util::clone_tag, *e);
            T x { std::move(*s) };
            s.reset();
            r.is(::dump(x) == d0, "moved, differs");
            if constexpr (std::is_move_assignable_v<T>) {
                auto t = std::make_unique<T>(takatori::util::clone_tag, *e);
                x = std::move(*t);
                t.reset();
                r.is(::dump(x) == d0, "assigned by move, differs");
            }
        }
        // every part on its own
        nodes ns; ns.put(*e);
        for (auto* n : ns.at) {
            std::string d = ::dump(*n);
            std::unique_ptr<ast::node> k(n->clone());
            r.is(::dump(*k) == d && apart(*k, *n), "copy of the part " + d + " differs: " + ::dump(*k));
        }
        r.is(dump() == d0, "original changed in the end");
    }
    void printing(box const& twin, report& r) {
        std::string d0 = dump();
        std::string p = print();
        r.is(dump() == d0, "printing changes the object");
        r.is(print() == p, "printed twice, differs: " + p + " " + print());
        r.is(text_of(static_cast<T const&>(*e)) == p, "printed as its own class, differs: " + p + " " + text_of(*e));
        if constexpr (is_node) {
            std::ostringstream o;
            { takatori::serializer::json_printer j { o }; j << static_cast<ast::node const&>(*e); }
            r.is(o.str() == p, "given to an acceptor, differs: " + p + " " + o.str());
        }
        r.is(copy()->print() == p, "the copy prints differently: " + p + " " + copy()->print());
        r.is(twin.print() == p, "an equal object prints differently: " + p + " " + twin.print());
        std::ostringstream o;
        o << "<";
        if constexpr (is_node) o << static_cast<ast::node const&>(*e) << "|" << static_cast<ast::node const&>(*e); else o << *e << "|" << *e;
        o << ">";
        r.is(o.str() == "<" + p + "|" + p + ">", "printed into a text, differs");
    }
    template<class K> static std::string kind_name(K k) {
        for (auto&& x : constants<K>::table) if (k == x.second) return x.first;
        return "?";
    }
    void dispatching(std::string const& kind, report& r) {
        if constexpr (is_node) {
            std::string d0 = dump();
            r.is(kind_name(static_cast<B const&>(*e).node_kind()) == kind, "node_kind is " + kind_name(e->node_kind()) + " instead of " + kind);
            r.is(kind_name(e->node_kind()) == kind, "node_kind of the class is " + kind_name(e->node_kind()) + " instead of " + kind);
            void const* me = e.get();
            auto told = [&](seen const& s, bool is_const, int by, char const* what) {
                r.is(s.calls == 1, std::string(what) + ": called " + std::to_string(s.calls) + " times");
                r.is(s.type == typeid(T), std::string(what) + ": handler of " + s.type.name());
                r.is(s.at == me, std::string(what) + ": another object");
                r.is(s.is_const == is_const, std::string(what) + ": constness");
                r.is(s.by == by, std::string(what) + ": handler " + std::to_string(s.by));
            };
            B& b = *e; B const& cb = *e;
            { seen s; int x = call<B>(every { s }, b); told(s, false, 1, "mutable"); r.is(x == 41, "result"); }
            { seen s; int x = call<B>(every { s }, cb); told(s, true, 1, "const"); r.is(x == 41, "result of const"); }
            { seen s; every c { s }; int x = call<B>(c, std::move(b)); told(s, false, 1, "temporary"); r.is(x == 41, "result of temporary"); }
            { seen s; int n = 2; std::string t = "abc"; auto u = std::make_unique<int>(77); int x = call<B>(every { s }, b, n, t, std::move(u));
              told(s, false, 2, "with arguments"); r.is(x == 77 && n == 7 && s.args == "abc" && !u, "arguments or result of the call with arguments"); }
            { seen s; int n = 2; auto u = std::make_unique<int>(78); int x = call<B>(every { s }, cb, n, std::string("xy"), std::move(u));
              told(s, true, 2, "const with arguments"); r.is(x == 78 && n == 7 && s.args == "xy" && !u, "arguments or result of the const call with arguments"); }
            { seen s; auto x = call<B>(own<B, T> { s }, cb); told(s, true, 1, "own handler and default"); r.is(x == "own", "result of own handler"); }
            { seen s; own<B, T> c { s }; auto x = call<B>(c, b); told(s, true, 1, "own handler and default, mutable"); r.is(x == "own", "result of own handler"); }
            { seen s; plain<B> c { s }; call<B>(c, b, 1); r.is(s.calls == 1 && s.at == static_cast<void const*>(static_cast<B*>(e.get())) && s.by == 4, "default handler"); }
            { seen s; auto x = call<B>(value_only { s }, cb, std::make_unique<int>(9)); told(s, true, 4, "by value"); r.is(x && *x == 9, "result by value"); }
            r.is(dump() == d0, "dispatching changes the object");
        } else { (void) kind; (void) r; }
    }
    void check(std::string const& flags, std::string const& kind, box const& twin, report& r) override {
        for (char f : flags) {
            if (f == 'e') {
                equality(*this, true, r, "itself");
                equality(twin, true, r, "same with other places");
                static_cast<box const&>(twin).equality(*this, true, r, "same with other places, turned round");
            }
            if (f == 'c') cloning(r);
            if (f == 'p') printing(twin, r);
            if (f == 'd') dispatching(kind, r);
        }
    }
    bool assign(std::vector<int> const& path, cursor& value) override { step_assign f { value }; return go_object(*e, path, 0, f); }
    bool put_clone(std::vector<int> const& path, box const& other) override { step_put f { *other.node() }; return go_object(*e, path, 0, f); }
    std::unique_ptr<box> sub(std::vector<int> const& path) const override {
        step_find f;
        if (!go_object(*e, path, 0, f)) return nullptr;
        return box_node(std::unique_ptr<ast::node>(f.n->clone()));
    }
};
std::unique_ptr<box> box_node(std::unique_ptr<ast::node> n) {
    std::unique_ptr<box> r;
    on_node(*n, [&](auto& e) { using T = std::remove_reference_t<decltype(e)>; n.release(); r = std::make_unique<box_of<T>>(std::unique_ptr<T>(&e)); });
    return r;
}
std::unique_ptr<box> make(std::string const& term, long shift) {
    cursor c { term.c_str(), shift };
    std::string cls = term.substr(1, term.find(' ') - 1);
    std::unique_ptr<box> r;
    auto finish = [&](auto* p) {
        using T = std::remove_pointer_t<decltype(p)>;
        c.p += cls.size() + 2;
        if constexpr (std::is_base_of_v<ast::node, T>) r = std::make_unique<box_of<T>>(build_node<T>(c));
        else { auto x = blank<T>(); fill(c, x); r = std::make_unique<box_of<T>>(std::make_unique<T>(std::move(x))); }
    };
    mzdump::printer::each_class([&](auto* p, char const* n) { if (!r && cls == n) finish(p); });
    mzast::elements([&](auto* p) { if (!r && cls == of<std::remove_pointer_t<decltype(p)>>::name) finish(p); });
    if (!r && cls == "compilation_unit") finish(static_cast<ast::compilation_unit*>(nullptr));
    if (!r) { std::cerr << "no class " << cls << std::endl; std::exit(9); }
    return r;
}

struct kept { std::unique_ptr<box> b, twin; long q, p; };
static std::map<std::string, std::vector<kept>> all;

static std::string one(std::string const& line) {
    std::istringstream in { line };
    std::string t, flags, kind, cls, term; long q, p;
    in >> t >> flags >> q >> p >> kind >> cls;
    std::getline(in, term);
    term.erase(0, 1);
    report r;
    auto b = make(term, 0);
    auto twin = make(term, 1000);
    r.is(b->dump() == term, "components are not those set: " + b->dump());
    b->check(flags, kind, *twin, r);
    all[cls].push_back({ std::move(b), std::move(twin), q, p });
    return r.str();
}
static std::string pairs(std::string const& flags) {
    report r;
    bool e = flags.find('e') != std::string::npos, p = flags.find('p') != std::string::npos;
    for (auto&& [cls, v] : all) {
        if (e) for (auto&& x : v) for (auto&& y : v) {
            std::size_t n = r.bad.size();
            x.b->equality(*y.twin, x.q == y.q, r, "pair");
            if (r.bad.size() > n) for (; n < r.bad.size(); ++n) r.bad[n] += " of " + x.b->dump() + " and " + y.b->dump();
        }
        if (p) {
            std::map<std::string, kept const*> by;
            for (auto&& x : v) {
                auto [it, fresh] = by.emplace(x.b->print(), &x);
                r.is(fresh || it->second->p == x.p, "different objects print alike: " + it->first + " for " + x.b->dump() + " and " + it->second->b->dump());
            }
            std::map<long, std::string> of_p;
            for (auto&& x : v) {
                auto [it, fresh] = of_p.emplace(x.p, x.b->print());
                r.is(fresh || it->second == x.twin->print(), "equal objects print differently: " + it->second + " and " + x.twin->print());
            }
        }
    }
    return r.str();
}
static std::string cross(std::string const& flags) {
    report r;
    std::vector<kept const*> some;
    for (auto&& [cls, v] : all) for (std::size_t i = 0; i < v.size(); i += std::max<std::size_t>(1, v.size() / 10)) some.push_back(&v[i]);
    if (flags.find('e') != std::string::npos)
        for (auto* x : some) for (auto* y : some) {
            if (x->b->same_class(*y->b)) continue;
            bool comparable = false, unequal = true;
            bool eq = x->b->base_equal(*y->b, comparable, unequal);
            if (comparable) r.is(!eq && unequal, "objects of different classes are equal: " + x->b->dump() + " and " + y->b->dump());
        }
    if (flags.find('p') != std::string::npos) {
        std::map<std::string, kept const*> by;
        for (auto* x : some) {
            if (x->b->node() == nullptr) continue;
            auto [it, fresh] = by.emplace(x->b->print(), x);
            bool comparable = false, unequal = true;
            if (!fresh) x->b->base_equal(*it->second->b, comparable, unequal);
            r.is(fresh || !comparable || it->second->b->same_class(*x->b), "objects of different classes print alike: " + it->first + " for " + x->b->dump() + " and " + it->second->b->dump());
        }
    }
    return r.str();
}
// history over numbered objects; after each operation the state of all objects is reported
//   N<h> term | C<h><g> copy g to h | M<h><g> move g to h | S<h><g> path: copy part of g to h
//   P<h><g> path: put copy of g into h | A<h> path value | D<h> damage nothing, destroy | E<h><g> equality | O<h> print
static std::vector<int> path_of(std::string const& s) { std::vector<int> r; std::istringstream in { s }; std::string x; while (std::getline(in, x, '.')) r.push_back(std::stoi(x)); return r; }
static std::string history(std::istringstream& in) {
    std::map<int, std::unique_ptr<box>> h;
    std::string out, op;
    while (in >> op) {
        int a = 0, b = 0; std::string path, term, extra;
        char k = op[0];
        in >> a;
        if (k == 'C' || k == 'M' || k == 'S' || k == 'P' || k == 'E') in >> b;
        if (k == 'S' || k == 'P' || k == 'A') in >> path;
        if (k == 'N' || k == 'A') { in >> term; for (auto&& c : term) if (c == '^') c = ' '; }
        bool ok = true;
        switch (k) {
            case 'N': h[a] = make(term, 0); break;
            case 'C': { auto x = h.at(b)->copy(); h[a] = std::move(x); break; }
            case 'M': { auto x = h.at(b)->move(); h.erase(b); h[a] = std::move(x); break; }
            case 'S': { auto x = h.at(b)->sub(path_of(path)); ok = x != nullptr; if (x) h[a] = std::move(x); break; }
            case 'P': ok = h.at(a)->put_clone(path_of(path), *h.at(b)); break;
            case 'A': { cursor c { term.c_str(), 0 }; ok = h.at(a)->assign(path_of(path), c); break; }
            case 'D': h.erase(a); break;
            case 'E': { bool cmp = false, ne = false; bool eq = h.at(a)->base_equal(*h.at(b), cmp, ne); if (cmp) extra = eq == ne ? "inconsistent" : eq ? "equal" : "different"; else extra = "incomparable"; if (cmp && eq == ne) extra = "contradiction"; break; }
            case 'O': h.at(a)->print(); break;
        }
        out += ok ? "+" : "!";
        out += extra;
        std::set<void const*> seen_;
        bool apart_ = true;
        for (auto&& [i, x] : h) {
            for (auto p : x->owned()) apart_ = seen_.insert(p).second && apart_;
            out += " " + std::to_string(i) + "=" ; std::string d = x->dump(); for (auto&& c : d) if (c == ' ') c = '^'; out += d;
        }
        if (!apart_) out += " SHARED";
        out += "\x1e";
    }
    return out;
}

int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string r;
        switch (line.empty() ? ' ' : line[0]) {
            case 'T': r = one(line); break;
            case 'A': r = pairs(line.substr(2)); break;
            case 'X': r = cross(line.substr(2)); break;
            case 'Z': all.clear(); r = "0"; break;
            case 'H': { std::istringstream in { line.substr(2) }; r = history(in); break; }
            default: r = "?";
        }
        std::cout << r << std::endl;
    }
    return 0;
}
