// stand-in for the rest of takatori::scalar
#pragma once
#include <optional>
#include <vector>
#include <takatori/scalar/expression.h>
#include <takatori/descriptor/element.h>
#include <takatori/util/reference_vector.h>
#include <takatori/util/downcast.h>
namespace takatori::scalar {
using util::ownership_reference;
using util::reference_vector;
using expr_ptr = std::unique_ptr<expression>;
#define MZ_NAMES(E, ...) inline std::string_view to_string_view(E v) { static constexpr std::string_view ns[] { __VA_ARGS__ }; return ns[static_cast<int>(v)]; } inline std::ostream& operator<<(std::ostream& out, E v) { return out << to_string_view(v); }
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
MZ_NAMES(unary_operator, "plus", "minus", "not", "length", "is_null", "is_true", "is_false", "is_unknown")
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
MZ_NAMES(binary_operator, "concat", "add", "subtract", "multiply", "divide", "remainder", "and", "or")
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal };
MZ_NAMES(comparison_operator, "=", "!=", "<", "<=", ">", ">=")
enum class match_operator { like, similar };
MZ_NAMES(match_operator, "like", "similar")
enum class quantifier { all, any };
MZ_NAMES(quantifier, "all", "any")
inline std::ostream& operator<<(std::ostream& out, expression_kind k) { return out << static_cast<int>(k); }
#define MZ_NODE(C) static constexpr expression_kind tag = expression_kind::C; [[nodiscard]] expression_kind kind() const noexcept override { return tag; } [[nodiscard]] C* clone() const& override { std::abort(); } [[nodiscard]] C* clone() && override { std::abort(); }
#define MZ_PART(P) [[nodiscard]] expression& P() noexcept { return *P##_; } [[nodiscard]] expression const& P() const noexcept { return *P##_; } [[nodiscard]] ownership_reference<expression> ownership_##P() noexcept { return ownership_reference<expression> { P##_ }; } [[nodiscard]] expr_ptr release_##P() noexcept { return std::move(P##_); }
class unary : public expression {
public:
    MZ_NODE(unary)
    unary(unary_operator o, expr_ptr e) : o_ { o }, operand_ { std::move(e) } {}
    [[nodiscard]] unary_operator operator_kind() const noexcept { return o_; }
    MZ_PART(operand)
private:
    unary_operator o_;
    expr_ptr operand_;
};
template<class O, expression_kind K>
class pair_of : public expression {
public:
    static constexpr expression_kind tag = K;
    [[nodiscard]] expression_kind kind() const noexcept override { return K; }
    [[nodiscard]] pair_of* clone() const& override { std::abort(); }
    [[nodiscard]] pair_of* clone() && override { std::abort(); }
    pair_of(O o, expr_ptr l, expr_ptr r) : o_ { o }, left_ { std::move(l) }, right_ { std::move(r) } {}
    [[nodiscard]] O operator_kind() const noexcept { return o_; }
    MZ_PART(left)
    MZ_PART(right)
private:
    O o_;
    expr_ptr left_;
    expr_ptr right_;
};
class binary : public pair_of<binary_operator, expression_kind::binary> { using pair_of::pair_of; };
class compare : public pair_of<comparison_operator, expression_kind::compare> { using pair_of::pair_of; };
class match : public expression {
public:
    MZ_NODE(match)
    match(match_operator o, expr_ptr i, expr_ptr p, expr_ptr e) : o_ { o }, input_ { std::move(i) }, pattern_ { std::move(p) }, escape_ { std::move(e) } {}
    [[nodiscard]] match_operator operator_kind() const noexcept { return o_; }
    MZ_PART(input)
    MZ_PART(pattern)
    MZ_PART(escape)
private:
    match_operator o_;
    expr_ptr input_;
    expr_ptr pattern_;
    expr_ptr escape_;
};
class conditional : public expression {
public:
    class alternative {
    public:
        alternative(expr_ptr c, expr_ptr b) : condition_ { std::move(c) }, body_ { std::move(b) } {}
        MZ_PART(condition)
        MZ_PART(body)
    private:
        expr_ptr condition_;
        expr_ptr body_;
    };
    MZ_NODE(conditional)
    conditional(std::vector<alternative> as, expr_ptr d) : as_ { std::move(as) }, default_ { std::move(d) } {}
    [[nodiscard]] std::vector<alternative>& alternatives() noexcept { return as_; }
    [[nodiscard]] std::vector<alternative> const& alternatives() const noexcept { return as_; }
    [[nodiscard]] util::optional_ptr<expression> default_expression() noexcept { return util::optional_ptr<expression> { default_.get() }; }
    [[nodiscard]] util::optional_ptr<expression const> default_expression() const noexcept { return util::optional_ptr<expression const> { default_.get() }; }
    [[nodiscard]] ownership_reference<expression> ownership_default_expression() noexcept { return ownership_reference<expression> { default_ }; }
private:
    std::vector<alternative> as_;
    expr_ptr default_;
};
class coalesce : public expression {
public:
    MZ_NODE(coalesce)
    explicit coalesce(reference_vector<expression> as) : as_ { std::move(as) } {}
    [[nodiscard]] reference_vector<expression>& alternatives() noexcept { return as_; }
    [[nodiscard]] reference_vector<expression> const& alternatives() const noexcept { return as_; }
private:
    reference_vector<expression> as_;
};
class let_variable {
public:
    let_variable(descriptor::variable v, expr_ptr e) : v_ { std::move(v) }, value_ { std::move(e) } {}
    [[nodiscard]] descriptor::variable& variable() noexcept { return v_; }
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
    MZ_PART(value)
private:
    descriptor::variable v_;
    expr_ptr value_;
};
class let : public expression {
public:
    using variable = let_variable;
    MZ_NODE(let)
    let(std::vector<variable> vs, expr_ptr b) : vs_ { std::move(vs) }, body_ { std::move(b) } {}
    [[nodiscard]] std::vector<variable>& variables() noexcept { return vs_; }
    [[nodiscard]] std::vector<variable> const& variables() const noexcept { return vs_; }
    MZ_PART(body)
private:
    std::vector<variable> vs_;
    expr_ptr body_;
};
class function_call : public expression {
public:
    MZ_NODE(function_call)
    function_call(descriptor::function f, reference_vector<expression> as) : f_ { std::move(f) }, as_ { std::move(as) } {}
    [[nodiscard]] descriptor::function& function() noexcept { return f_; }
    [[nodiscard]] descriptor::function const& function() const noexcept { return f_; }
    [[nodiscard]] reference_vector<expression>& arguments() noexcept { return as_; }
    [[nodiscard]] reference_vector<expression> const& arguments() const noexcept { return as_; }
private:
    descriptor::function f_;
    reference_vector<expression> as_;
};
class extension : public expression {
public:
    using extension_id_type = std::size_t;
    MZ_NODE(extension)
    [[nodiscard]] virtual extension_id_type extension_id() const noexcept = 0;
};
template<class V, class E, class... A>
auto dispatch_as(V&& v, E&& e, A&&... a) { return v(std::forward<E>(e), std::forward<A>(a)...); }
#define MZ_CASE(C) case expression_kind::C: return v(static_cast<C Q&>(e), std::forward<A>(a)...);
#define MZ_CASES MZ_CASE(immediate) MZ_CASE(variable_reference) MZ_CASE(unary) MZ_CASE(cast) MZ_CASE(binary) MZ_CASE(compare) MZ_CASE(match) MZ_CASE(conditional) MZ_CASE(coalesce) MZ_CASE(let) MZ_CASE(function_call) MZ_CASE(extension)
#define Q
template<class V, class... A>
auto dispatch(V&& v, expression& e, A&&... a) { switch (e.kind()) { MZ_CASES } std::abort(); }
#undef Q
#define Q const
template<class V, class... A>
auto dispatch(V&& v, expression const& e, A&&... a) { switch (e.kind()) { MZ_CASES } std::abort(); }
#undef Q
/// visits the expressions, and digs into those for which the visitor returns true
template<class V>
class walker {
public:
    explicit walker(V& v) : v_ { v } {}
    void operator()(immediate const& e) { (void) see(e); }
    void operator()(variable_reference const& e) { (void) see(e); }
    void operator()(unary const& e) { if (see(e)) go(e.operand()); }
    void operator()(cast const& e) { if (see(e)) go(e.operand()); }
    void operator()(binary const& e) { if (see(e)) { go(e.left()); go(e.right()); } }
    void operator()(compare const& e) { if (see(e)) { go(e.left()); go(e.right()); } }
    void operator()(match const& e) { if (see(e)) { go(e.input()); go(e.pattern()); go(e.escape()); } }
    void operator()(conditional const& e) {
        if (!see(e)) return;
        for (auto&& a : e.alternatives()) { go(a.condition()); go(a.body()); }
        if (e.default_expression()) go(*e.default_expression());
    }
    void operator()(coalesce const& e) { if (see(e)) for (auto&& a : e.alternatives()) go(a); }
    void operator()(let const& e) { if (see(e)) { for (auto&& x : e.variables()) go(x.value()); go(e.body()); } }
    void operator()(function_call const& e) { if (see(e)) for (auto&& a : e.arguments()) go(a); }
    void operator()(extension const& e) { (void) see(e); }
private:
    V& v_;
    void go(expression const& e) { dispatch(*this, e); }
    template<class E> bool see(E const& e) {
        if constexpr (std::is_void_v<decltype(v_(e))>) { v_(e); return true; } else { return v_(e); }
    }
};
template<class V>
void walk(V&& v, expression const& e) { walker<std::remove_reference_t<V>> w { v }; dispatch(w, e); }
} // namespace takatori::scalar
