#pragma once
#include <list>
#include <memory>
#include <utility>
#include <vector>
#include <takatori/document/region.h>
#include <takatori/util/optional_ptr.h>
namespace takatori::relation {
enum class expression_kind { scan, values, filter, project, apply, emit, write, join, distinct, limit, union_, difference, intersection, aggregate, extension };
class expression;
class input_port;
class output_port {
public:
    explicit output_port(expression& o) noexcept : owner_ { &o } {}
    [[nodiscard]] expression& owner() noexcept { return *owner_; }
    [[nodiscard]] expression const& owner() const noexcept { return *owner_; }
    [[nodiscard]] util::optional_ptr<input_port> opposite() const noexcept { return util::optional_ptr<input_port> { to_ }; }
    inline void connect_to(input_port& p);
    inline void disconnect_from(input_port& p);
private:
    friend class input_port;
    expression* owner_;
    input_port* to_ {};
};
class input_port {
public:
    explicit input_port(expression& o) noexcept : owner_ { &o } {}
    [[nodiscard]] expression& owner() noexcept { return *owner_; }
    [[nodiscard]] expression const& owner() const noexcept { return *owner_; }
    [[nodiscard]] util::optional_ptr<output_port> opposite() const noexcept { return util::optional_ptr<output_port> { from_ }; }
    inline void connect_to(output_port& p);
    inline void disconnect_from(output_port& p);
    inline input_port& operator<<(output_port& p) { connect_to(p); return *this; }
private:
    friend class output_port;
    expression* owner_;
    output_port* from_ {};
};
void input_port::connect_to(output_port& p) {
    if (from_ != nullptr || p.to_ != nullptr) std::abort(); // already connected
    from_ = &p;
    p.to_ = this;
}
void input_port::disconnect_from(output_port& p) {
    if (from_ != &p) std::abort(); // not connected
    from_ = nullptr;
    p.to_ = nullptr;
}
void output_port::connect_to(input_port& p) { p.connect_to(*this); }
void output_port::disconnect_from(input_port& p) { p.disconnect_from(*this); }
class expression {
public:
    using input_port_type = input_port;
    using output_port_type = output_port;
    expression() = default;
    virtual ~expression() = default;
    expression(expression const&) = delete;
    expression& operator=(expression const&) = delete;
    [[nodiscard]] virtual expression_kind kind() const noexcept = 0;
    [[nodiscard]] virtual std::vector<input_port>& ins() { static std::vector<input_port> none {}; return none; }
    [[nodiscard]] virtual std::vector<output_port>& outs() { static std::vector<output_port> none {}; return none; }
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
private:
    document::region region_ {};
};
class graph_type {
public:
    graph_type() = default;
    template<class T> T& insert(std::unique_ptr<T> p) { auto& r = *p; es_.push_back(std::shared_ptr<expression> { std::move(p) }); return r; }
    template<class T, class... A> T& emplace(A&&... a) { return insert(std::make_unique<T>(std::forward<A>(a)...)); }
    [[nodiscard]] std::list<std::shared_ptr<expression>> const& elements() const noexcept { return es_; }
    [[nodiscard]] util::optional_ptr<output_port> open_output() const {
        for (auto&& e : es_) for (auto&& o : e->outs()) if (!o.opposite()) return util::optional_ptr<output_port> { &o };
        return {};
    }
    [[nodiscard]] std::size_t size() const noexcept { return es_.size(); }
    [[nodiscard]] bool empty() const noexcept { return es_.empty(); }
    /// the operators are shared: the harnesses only read the copies
    friend void merge_into(graph_type const& from, graph_type& to) { to.es_.insert(to.es_.end(), from.es_.begin(), from.es_.end()); }
private:
    std::list<std::shared_ptr<expression>> es_ {};
};
void merge_into(graph_type const& from, graph_type& to);
} // namespace takatori::relation
