// sources: src/mizugaki/ast/node_region.cpp
// Source ranges: joining, comparing, looking, taking parts, carrying.
#include <iostream>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <mizugaki/ast/node_region.h>
#include <mizugaki/ast/common/regioned.h>
using mizugaki::ast::node_region;
using mizugaki::ast::common::regioned;
static std::string show(node_region r) { return std::to_string(r.begin) + "," + std::to_string(r.end); }
template<class V> static std::string carry(V v, V w, node_region a, node_region b) {
    regioned<V> x { v, a }, y { w };
    y.region() = b;
    regioned<V> const& cx = x; regioned<V> const& cy = y;
    std::ostringstream o;
    o << (cx == cy) << (cx != cy) << (cy == cx) << (cx == w) << (cx != w) << (v == cy) << (v != cy)
      << (std::hash<regioned<V>> {}(x) == std::hash<V> {}(v)) << " " << show(cx.region()) << " " << show(cy.region());
    regioned<V> c1 { takatori::util::clone_tag_t {}, cx };
    regioned<V> t { x };
    regioned<V> c2 { takatori::util::clone_tag_t {}, std::move(t) };
    regioned<V> c3 { x };
    c3 = y;
    o << " " << (c1.value() == v && *c1 == v && static_cast<V const&>(std::as_const(c1)) == v) << show(c1.region()) << " " << (c2.value() == v) << show(c2.region()) << " " << (c3.value() == w) << show(c3.region());
    // writing to a copy leaves the source alone
    c1.value() = w; *c2 = w; c1.region() = b; c2.region() = b;
    o << " " << (x.value() == v) << show(x.region());
    std::ostringstream p; p << x; std::ostringstream q; q << v;
    o << " " << (p.str() == q.str());
    return o.str();
}
int main() {
    for (std::string line; std::getline(std::cin, line);) {
        std::istringstream in { line };
        std::string op;
        in >> op;
        auto next = [&] { std::size_t b, e; in >> b >> e; return node_region { b, e }; };
        std::ostringstream o;
        if (op == "join") {
            node_region acc {};
            std::string w;
            while (in >> w) {
                auto r = next();
                auto keep = r; auto was = acc;
                if (w == "left") acc = r | acc;
                else if (w == "right") acc = acc | r;
                else { auto s = next(); acc = acc | (r | s); }
                (void) keep; (void) was;
            }
            o << show(acc);
        } else if (op == "compare") {
            auto a = next(), b = next();
            std::hash<node_region> h;
            o << (a == b) << (a != b) << (b == a) << (b != a) << (!(a == b) || h(a) == h(b));
        } else if (op == "look") {
            auto a = next();
            auto const c = a;
            std::ostringstream s, t;
            s << a; t << std::boolalpha << c;
            node_region copy { a };
            o << static_cast<bool>(c) << " " << c.first() << " " << c.last() << " " << c.size() << " " << s.str() << " " << show(copy) << " " << show(a)
              << " " << (s.str() == t.str()) << " " << (node_region::npos == static_cast<std::size_t>(-1)) << " " << show(node_region {}) << " " << static_cast<bool>(node_region {});
        } else if (op == "part") {
            auto a = next(), b = next();
            auto r = a(b.begin, b.end);
            o << show(r) << " " << show(a);
            if (b.end == node_region::npos) o << " " << show(a(b.begin)); else o << " " << show(r);
        } else if (op == "carry") {
            auto a = next(), b = next();
            int v, w; in >> v >> w;
            o << carry<int>(v, w, a, b) << "|" << carry<std::string>(std::to_string(v), std::to_string(w), a, b) << "|" << carry<bool>(v != 0, w != 0, a, b);
        }
        std::cout << o.str() << "\n";
    }
    return 0;
}
