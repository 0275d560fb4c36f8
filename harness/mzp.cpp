// Replays histories of parser objects in use, see MzSession.
//   T <hex text>...        the texts, numbered from 1
//   O <options>...         the settings, numbered from 1 (as in mzh)
//   H <op>...              a history; answers one field per End, Look and Ask, separated by \x1e
//        N:s:o S:s:o C:s:d M:s:d X:s B:p:s:t E:p L:i O:s
//   R <threads> <rounds> <seed>   all threads call on shared objects, every pair of setting and text;
//        answers the number of calls, then every answer that differs from the first one given for its pair
#define main mzh_main
#include "mzh.cpp"
#undef main
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <random>
#include <thread>
#include <map>
#include <takatori/document/basic_document.h>

using takatori::document::basic_document;
using result = parser::sql_parser_result;

static std::vector<std::string> texts, specs;
static std::vector<std::shared_ptr<basic_document>> docs;

struct setting { sql_parser_options o; mzdump::mode m; };
static setting make(std::size_t i) {
    setting s {};
    bool dump, keep;
    s.m = apply(s.o, specs.at(i - 1), dump, keep);
    return s;
}
// option objects cannot be copied: written anew, entry by entry
static sql_parser_options copy(sql_parser_options const& o) {
    sql_parser_options r {};
    r.max_expected_candidates() = o.max_expected_candidates();
    r.tree_node_limit() = o.tree_node_limit();
    r.tree_depth_limit() = o.tree_depth_limit();
    r.enable_description_comments() = o.enable_description_comments();
    for (std::size_t k = 0; k < 20; ++k) r.element_limits()[static_cast<parser::sql_parser_element_kind>(k)] = o.element_limits()[static_cast<parser::sql_parser_element_kind>(k)];
    return r;
}
static std::string show(sql_parser_options const& o) {
    std::ostringstream r;
    r << o.max_expected_candidates() << "," << o.tree_node_limit() << "," << o.tree_depth_limit() << "," << o.enable_description_comments() << "," << o.debug();
    for (std::size_t k = 0; k < 20; ++k) r << "," << o.element_limits()[static_cast<parser::sql_parser_element_kind>(k)];
    return r.str();
}
static std::string tell(result& r) { return answer(r, mzdump::mode::nodes, true); }

static result call(sql_parser const& p, std::size_t t, unsigned how) {
    switch (how % 3) {
        case 0: return p("-", texts.at(t - 1));
        case 1: return p(takatori::util::maybe_shared_ptr<takatori::document::document const> { docs.at(t - 1) });
        default: return p(takatori::util::maybe_shared_ptr<takatori::document::document const> { std::make_shared<basic_document>("-", texts.at(t - 1)) });
    }
}

struct worker {
    sql_parser const* p;
    std::size_t t;
    std::atomic<bool> stop { false }, once { false };
    result last;
    std::string said, differs;
    std::thread th;
    worker(sql_parser const* p, std::size_t t, unsigned how) : p { p }, t { t }, th { [this, how] { go(how); } } {}
    void go(unsigned how) {
        for (unsigned k = 0; k < 60; ++k) {
            if (k > 0 && stop.load(std::memory_order_relaxed)) break;
            std::string a;
            result r;
            try { r = call(*this->p, t, how + k); a = tell(r); } catch (std::exception const& e) { a = std::string { "X\t" } + e.what(); }
            if (k == 0) said = a; else if (a != said && differs.empty()) differs = a;
            last = std::move(r);
            once = true;
        }
    }
};

struct history {
    std::map<std::size_t, std::unique_ptr<sql_parser>> slot;
    std::map<std::size_t, std::string> before;
    std::map<std::size_t, std::unique_ptr<worker>> run;
    std::map<std::size_t, std::size_t> at;
    std::vector<result> held;
    std::string out;
    unsigned how = 0;
    void say(std::string const& s) { out += s; out += '\x1e'; }
    void op(std::string const& x) {
        std::stringstream ss { x };
        std::string f;
        std::vector<std::size_t> n;
        std::getline(ss, f, ':');
        for (std::string v; std::getline(ss, v, ':');) n.push_back(std::stoul(v));
        switch (f[0]) {
            case 'N': slot[n[0]] = std::make_unique<sql_parser>(std::move(make(n[1]).o)); break;
            case 'S': {
                auto s = make(n[1]);
                auto& o = slot[n[0]]->options();
                if (++how % 2) { o = std::move(s.o); break; }
                // entry by entry, in the object as it is
                o.max_expected_candidates() = s.o.max_expected_candidates();
                o.tree_node_limit() = s.o.tree_node_limit();
                o.tree_depth_limit() = s.o.tree_depth_limit();
                o.enable_description_comments() = s.o.enable_description_comments();
                for (std::size_t k = 0; k < 20; ++k) o.element_limits()[static_cast<parser::sql_parser_element_kind>(k)] = s.o.element_limits()[static_cast<parser::sql_parser_element_kind>(k)];
                break;
            }
            case 'C': slot[n[1]] = std::make_unique<sql_parser>(copy(std::as_const(*slot[n[0]]).options())); break;
            case 'M': { auto q = std::make_unique<sql_parser>(std::move(*slot[n[0]])); slot.erase(n[0]); slot[n[1]] = std::move(q); break; }
            case 'X': slot.erase(n[0]); break;
            case 'B': before[n[0]] = show(std::as_const(*slot[n[1]]).options()); at[n[0]] = n[1]; run[n[0]] = std::make_unique<worker>(slot[n[1]].get(), n[2], ++how); break;
            case 'E': {
                auto& w = *run[n[0]];
                w.stop = true;
                w.th.join();
                auto s = w.said;
                if (!w.differs.empty()) s = "DIFFERS " + s + " THEN " + w.differs;
                auto now = show(std::as_const(*slot[at[n[0]]]).options());
                if (now != before[n[0]]) s = "OPTIONS " + before[n[0]] + " THEN " + now;
                held.push_back(std::move(w.last));
                run.erase(n[0]);
                say(s);
                break;
            }
            case 'L': say(tell(held.at(n[0] - 1))); break;
            case 'O': say(show(std::as_const(*slot[n[0]]).options())); break;
            default: break;
        }
    }
};

static std::string race(unsigned threads, unsigned rounds, unsigned seed) {
    std::vector<setting> set;
    std::vector<std::unique_ptr<sql_parser>> ps;
    for (std::size_t i = 1; i <= specs.size(); ++i) { set.push_back(make(i)); ps.push_back(std::make_unique<sql_parser>(std::move(make(i).o))); }
    std::size_t n = texts.size();
    std::vector<std::string> first(n * specs.size());
    std::mutex mx;
    std::string bad;
    std::atomic<std::size_t> calls { 0 }, ready { 0 };
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < threads; ++k) ts.emplace_back([&, k] {
        std::mt19937 rng { seed * 1000 + k };
        std::vector<std::string> mine(first.size());
        ready++;
        while (ready < threads) {}
        for (unsigned i = 0; i < rounds; ++i) {
            std::size_t o = rng() % specs.size(), t = rng() % n;
            std::string a;
            try {
                if (rng() % 4 == 0) { sql_parser p { copy(set[o].o) }; auto r = call(p, t + 1, rng()); a = tell(r); }
                else { auto r = call(*ps[o], t + 1, rng()); a = tell(r); }
            } catch (std::exception const& e) { a = std::string { "X\t" } + e.what(); }
            ++calls;
            auto& m = mine[o * n + t];
            if (m.empty()) m = a;
            else if (m != a) { std::lock_guard<std::mutex> g { mx }; bad += std::to_string(o + 1) + ":" + std::to_string(t + 1) + ":" + a + "\x1e"; }
        }
        std::lock_guard<std::mutex> g { mx };
        for (std::size_t i = 0; i < mine.size(); ++i) {
            if (mine[i].empty()) continue;
            if (first[i].empty()) first[i] = mine[i];
            else if (first[i] != mine[i]) bad += std::to_string(i / n + 1) + ":" + std::to_string(i % n + 1) + ":" + mine[i] + "\x1e";
        }
    });
    for (auto& t : ts) t.join();
    std::string r = std::to_string(calls.load()) + "\x1e";
    for (std::size_t i = 0; i < first.size(); ++i) if (!first[i].empty()) r += std::to_string(i / n + 1) + ":" + std::to_string(i % n + 1) + ":" + first[i] + "\x1e";
    return r + bad;
}

int main() {
    std::ios::sync_with_stdio(false);
    for (std::string line; std::getline(std::cin, line);) {
        std::stringstream ss { line };
        std::string c, x, out = "ok";
        ss >> c;
        if (c == "T") { while (ss >> x) { texts.push_back(unhex(x == "-" ? "" : x)); docs.push_back(std::make_shared<basic_document>("-", texts.back())); } }
        else if (c == "O") { while (ss >> x) specs.push_back(x); }
        else if (c == "H") { history h; while (ss >> x) h.op(x); out = h.out; }
        else if (c == "R") { unsigned a, b, d; ss >> a >> b >> d; out = race(a, b, d); }
        for (auto& ch : out) if (ch == '\n') ch = ' ';
        std::cout << out << "\n" << std::flush;
    }
}
