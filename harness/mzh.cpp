// Parse service: one request per line on stdin, one answer per line on stdout.
//
//   P <options> <hex text>     parse
//        options: comma separated, "-" for none
//          m<n> max expected candidates   n<n> node limit   d<n> depth limit
//          l<kind>=<n> element limit      c0 description comments off
//          z<mode> dump mode: n none, o nodes (default), a all, x no dump
//          k keep the parser object of the previous request with the same options
//   A <options> <hex prefix> <hex token>,<hex token>...
//        for each token, parse prefix + token + " \\" (which no sentence contains):
//        1 the error is at the last character, else the code of an error exactly at the token
//        (u unexpected_token, c invalid_character, i invalid_token, e unexpected_eof), else x
//   answers
//        V \t statements \t nodes \t depth \t comments \t dump
//        E \t code \t begin \t end \t hex message
//        X \t what            exception
//        B \t why             inconsistent result object
#include "mzdump.h"
#include <mizugaki/parser/sql_parser.h>
#include <iostream>
#include <memory>
#include <sstream>

using namespace mizugaki;
using parser::sql_parser;
using parser::sql_parser_options;

static std::string unhex(std::string const& s) {
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    std::string r;
    for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
    return r;
}
static std::string hex(std::string_view s) {
    static char const* h = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; }
    return r;
}
static std::string reg(ast::node_region r) {
    auto f = [](std::size_t n) { return n == ast::node_region::npos ? std::string { "-" } : std::to_string(n); };
    return f(r.begin) + ":" + f(r.end);
}

static mzdump::mode apply(sql_parser_options& o, std::string const& spec, bool& dump, bool& keep) {
    auto m = mzdump::mode::nodes;
    dump = true; keep = false;
    std::stringstream ss { spec };
    std::string x;
    while (std::getline(ss, x, ',')) {
        if (x.empty() || x == "-") continue;
        std::string r = x.substr(1);
        switch (x[0]) {
            case 'm': o.max_expected_candidates() = std::stoull(r); break;
            case 'n': o.tree_node_limit() = std::stoull(r); break;
            case 'd': o.tree_depth_limit() = std::stoull(r); break;
            case 'c': o.enable_description_comments() = r != "0"; break;
            case 'k': keep = true; break;
            case 'l': {
                auto e = r.find('=');
                auto k = parser::find_sql_parser_element_kind(r.substr(0, e));
                if (!k) throw std::runtime_error("no such element kind " + r);
                o.element_limits()[*k] = std::stoull(r.substr(e + 1));
                break;
            }
            case 'z': dump = r != "x"; m = r == "n" ? mzdump::mode::none : r == "a" ? mzdump::mode::all : mzdump::mode::nodes; break;
            default: throw std::runtime_error("option " + x);
        }
    }
    return m;
}

static std::string answer(parser::sql_parser_result& r, mzdump::mode m, bool dump) {
    if (r.has_value() == r.has_diagnostic()) return std::string { "B\thas_value=" } + (r.has_value() ? "1" : "0") + " has_diagnostic=" + (r.has_diagnostic() ? "1" : "0");
    if (r.has_value() != static_cast<bool>(r)) return "B\toperator bool";
    if (r.has_value()) {
        auto& u = *r.value();
        std::string s = "V\t" + std::to_string(u.statements().size()) + "\t" + std::to_string(r.tree_node_count()) + "\t" + std::to_string(r.max_tree_depth()) + "\t";
        bool f = true;
        for (auto&& c : u.comments()) { if (!f) s += ","; f = false; s += reg(c); }
        s += "\t";
        if (dump) {
            mzdump::printer p { m };
            p.put(u.statements());
            s += p.str();
        }
        return s;
    }
    auto& d = r.diagnostic();
    std::ostringstream code; code << d.code();
    std::string s = "E\t" + code.str() + "\t" + reg(d.region());
    for (auto& c : s) if (c == ':') c = '\t';
    return s + "\t" + hex(d.message());
}

static char after(sql_parser const& p, std::string const& prefix, std::string const& token) {
    auto r = p("-", prefix + token + " \\");
    if (!r.has_diagnostic()) return 'v';
    auto& d = r.diagnostic();
    std::size_t b = prefix.size(), e = b + token.size();
    std::ostringstream os; os << d.code();
    auto code = os.str();
    if (d.region().begin == e + 1 && d.region().end == e + 2) return code == "invalid_character" ? '1' : 'y';
    if (d.region().begin != b || d.region().end != e) return 'x';
    return code == "unexpected_token" ? 'u' : code == "invalid_character" ? 'c' : code == "invalid_token" ? 'i' : code == "unexpected_eof" ? 'e' : 'z';
}

int main() {
    std::ios::sync_with_stdio(false);
    std::string line;
    std::string kept_spec;
    std::unique_ptr<sql_parser> kept;
    while (std::getline(std::cin, line)) {
        std::string out;
        try {
            std::stringstream ss { line };
            std::string cmd, spec, text;
            ss >> cmd >> spec >> text;
            sql_parser_options o {};
            bool dump, keep;
            auto m = apply(o, spec, dump, keep);
            std::unique_ptr<sql_parser> fresh;
            sql_parser* p;
            if (keep && kept && kept_spec == spec) {
                p = kept.get();
            } else {
                fresh = std::make_unique<sql_parser>(std::move(o));
                p = fresh.get();
            }
            if (cmd == "A") {
                std::string list, one;
                ss >> list;
                auto prefix = unhex(text == "-" ? std::string {} : text);
                std::stringstream ls { list };
                while (std::getline(ls, one, ',')) out += after(*p, prefix, unhex(one));
            } else {
                auto r = (*p)("-", unhex(text));
                out = answer(r, m, dump);
            }
            if (keep && fresh) { kept = std::move(fresh); kept_spec = spec; }
        } catch (std::exception const& e) {
            out = std::string { "X\t" } + e.what();
        }
        for (auto& c : out) if (c == '\n') c = ' ';
        std::cout << out << "\n";
        if (std::cin.rdbuf()->in_avail() <= 0) std::cout.flush();
    }
}
