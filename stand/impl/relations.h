// stand-in for takatori::relation and the extensions of yugawara
#pragma once
#include <list>
#include <memory>
#include <optional>
#include <vector>
#include <takatori/relation/expression.h>
#include <impl/scalars.h>
#include <takatori/relation/sort_direction.h>
namespace takatori::relation {
using variables = std::vector<descriptor::variable>;
using expr = scalar::expression;
using expr_ptr = std::unique_ptr<expr>;
using util::optional_ptr;
using util::ownership_reference;
using util::reference_vector;
MZ_NAMES(expression_kind, "scan", "values", "filter", "project", "apply", "emit", "write", "join", "distinct", "limit", "union", "difference", "intersection", "aggregate", "extension")
enum class set_quantifier { all, distinct };
MZ_NAMES(set_quantifier, "all", "distinct")
enum class join_kind { inner, left_outer, full_outer };
MZ_NAMES(join_kind, "inner", "left", "full")
enum class apply_kind { cross, outer };
MZ_NAMES(apply_kind, "cross", "outer")
enum class write_kind { insert, insert_overwrite, insert_skip, update, delete_ };
MZ_NAMES(write_kind, "insert", "overwrite", "skip", "update", "delete")
template<expression_kind K>
class node : public expression {
public:
    static constexpr expression_kind tag = K;
    [[nodiscard]] expression_kind kind() const noexcept override { return K; }
};
template<class B>
class with_output : public B {
public:
    [[nodiscard]] output_port& output() noexcept { return outs()[0]; }
    [[nodiscard]] output_port const& output() const noexcept { return const_cast<with_output*>(this)->outs()[0]; }
    [[nodiscard]] std::vector<output_port>& outs() override { return outs_; }
protected:
    with_output() { outs_.emplace_back(*this); }
private:
    std::vector<output_port> outs_ {};
};
template<class B>
class with_input : public B {
public:
    [[nodiscard]] input_port& input() noexcept { return ins()[0]; }
    [[nodiscard]] input_port const& input() const noexcept { return const_cast<with_input*>(this)->ins()[0]; }
    [[nodiscard]] std::vector<input_port>& ins() override { return ins_; }
protected:
    with_input() { ins_.emplace_back(*this); }
private:
    std::vector<input_port> ins_ {};
};
template<class B>
class with_inputs : public B {
public:
    [[nodiscard]] input_port& left() noexcept { return ins()[0]; }
    [[nodiscard]] input_port& right() noexcept { return ins()[1]; }
    [[nodiscard]] input_port const& left() const noexcept { return const_cast<with_inputs*>(this)->ins()[0]; }
    [[nodiscard]] input_port const& right() const noexcept { return const_cast<with_inputs*>(this)->ins()[1]; }
    [[nodiscard]] std::vector<input_port>& ins() override { return ins_; }
protected:
    with_inputs() { ins_.emplace_back(*this); ins_.emplace_back(*this); }
private:
    std::vector<input_port> ins_ {};
};
template<expression_kind K> using source_node = with_output<node<K>>;
template<expression_kind K> using sink_node = with_input<node<K>>;
template<expression_kind K> using pipe_node = with_input<with_output<node<K>>>;
template<expression_kind K> using merge_node = with_inputs<with_output<node<K>>>;
/// a column taken over from one place to another
class mapping_element {
public:
    mapping_element(descriptor::variable s, descriptor::variable d) : s_ { std::move(s) }, d_ { std::move(d) } {}
    [[nodiscard]] descriptor::variable const& source() const noexcept { return s_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
private:
    descriptor::variable s_;
    descriptor::variable d_;
};
class scan : public source_node<expression_kind::scan> {
public:
    using column = mapping_element;
    struct endpoint {};
    scan(descriptor::relation s, std::vector<column> cs, endpoint, endpoint, std::optional<std::size_t> limit) : s_ { std::move(s) }, cs_ { std::move(cs) }, limit_ { limit } {}
    [[nodiscard]] descriptor::relation const& source() const noexcept { return s_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return cs_; }
    [[nodiscard]] std::optional<std::size_t> const& limit() const noexcept { return limit_; }
private:
    descriptor::relation s_;
    std::vector<column> cs_;
    std::optional<std::size_t> limit_;
};
class values : public source_node<expression_kind::values> {
public:
    using column = descriptor::variable;
    class row {
    public:
        explicit row(reference_vector<expr> es) : es_ { std::move(es) } {}
        [[nodiscard]] reference_vector<expr>& elements() noexcept { return es_; }
        [[nodiscard]] reference_vector<expr> const& elements() const noexcept { return es_; }
    private:
        reference_vector<expr> es_;
    };
    values(std::vector<column> cs, std::vector<row> rs) : cs_ { std::move(cs) }, rs_ { std::move(rs) } {}
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return cs_; }
    [[nodiscard]] std::vector<row>& rows() noexcept { return rs_; }
    [[nodiscard]] std::vector<row> const& rows() const noexcept { return rs_; }
private:
    std::vector<column> cs_;
    std::vector<row> rs_;
};
class filter : public pipe_node<expression_kind::filter> {
public:
    explicit filter(expr_ptr c) : condition_ { std::move(c) } {}
    [[nodiscard]] expr& condition() noexcept { return *condition_; } [[nodiscard]] expr const& condition() const noexcept { return *condition_; } [[nodiscard]] ownership_reference<expr> ownership_condition() noexcept { return ownership_reference<expr> { condition_ }; }
private:
    expr_ptr condition_;
};
class project_column {
public:
    project_column(descriptor::variable v, expr_ptr e) : v_ { std::move(v) }, value_ { std::move(e) } {}
    project_column(expr_ptr e, descriptor::variable v) : v_ { std::move(v) }, value_ { std::move(e) } {}
    [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
    [[nodiscard]] expr& value() noexcept { return *value_; } [[nodiscard]] expr const& value() const noexcept { return *value_; } [[nodiscard]] ownership_reference<expr> ownership_value() noexcept { return ownership_reference<expr> { value_ }; }
private:
    descriptor::variable v_;
    expr_ptr value_;
};
class project : public pipe_node<expression_kind::project> {
public:
    using column = project_column;
    explicit project(std::vector<column> cs) : cs_ { std::move(cs) } {}
    [[nodiscard]] std::vector<column>& columns() noexcept { return cs_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return cs_; }
private:
    std::vector<column> cs_;
};
class apply : public pipe_node<expression_kind::apply> {
public:
    class column_type {
    public:
        column_type(std::size_t p, descriptor::variable v) : p_ { p }, v_ { std::move(v) } {}
        [[nodiscard]] std::size_t position() const noexcept { return p_; }
        [[nodiscard]] descriptor::variable& variable() noexcept { return v_; }
        [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
    private:
        std::size_t p_;
        descriptor::variable v_;
    };
    apply(apply_kind k, descriptor::function f, reference_vector<expr> as, std::vector<column_type> cs) : k_ { k }, f_ { std::move(f) }, as_ { std::move(as) }, cs_ { std::move(cs) } {}
    [[nodiscard]] apply_kind operator_kind() const noexcept { return k_; }
    [[nodiscard]] descriptor::function const& function() const noexcept { return f_; }
    [[nodiscard]] reference_vector<expr> const& arguments() const noexcept { return as_; }
    [[nodiscard]] std::vector<column_type> const& columns() const noexcept { return cs_; }
private:
    apply_kind k_;
    descriptor::function f_;
    reference_vector<expr> as_;
    std::vector<column_type> cs_;
};
class emit : public sink_node<expression_kind::emit> {
public:
    class column {
    public:
        explicit column(descriptor::variable v, std::optional<std::string> n = {}) : v_ { std::move(v) }, n_ { std::move(n) } {}
        [[nodiscard]] descriptor::variable const& source() const noexcept { return v_; }
        [[nodiscard]] std::optional<std::string> const& name() const noexcept { return n_; }
    private:
        descriptor::variable v_;
        std::optional<std::string> n_;
    };
    explicit emit(std::vector<column> cs) : cs_ { std::move(cs) } {}
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return cs_; }
private:
    std::vector<column> cs_;
};
class write : public sink_node<expression_kind::write> {
public:
    using column = mapping_element;
    using key = mapping_element;
    write(write_kind k, descriptor::relation d, std::vector<key> ks, std::vector<column> cs) : k_ { k }, d_ { std::move(d) }, ks_ { std::move(ks) }, cs_ { std::move(cs) } {}
    [[nodiscard]] write_kind operator_kind() const noexcept { return k_; }
    [[nodiscard]] descriptor::relation const& destination() const noexcept { return d_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return ks_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return cs_; }
private:
    write_kind k_;
    descriptor::relation d_;
    std::vector<key> ks_;
    std::vector<column> cs_;
};
namespace intermediate {
class join : public merge_node<expression_kind::join> {
public:
    explicit join(join_kind k, expr_ptr c = {}) : k_ { k }, c_ { std::move(c) } {}
    [[nodiscard]] join_kind operator_kind() const noexcept { return k_; }
    [[nodiscard]] optional_ptr<expr const> condition() const noexcept { return optional_ptr<expr const> { c_.get() }; }
private:
    join_kind k_;
    expr_ptr c_;
};
class distinct : public pipe_node<expression_kind::distinct> {
public:
    explicit distinct(variables ks) : ks_ { std::move(ks) } {}
    [[nodiscard]] variables const& group_keys() const noexcept { return ks_; }
private:
    variables ks_;
};
class limit : public pipe_node<expression_kind::limit> {
public:
    class sort_key {
    public:
        sort_key(descriptor::variable v, sort_direction d) : v_ { std::move(v) }, d_ { d } {}
        [[nodiscard]] descriptor::variable const& variable() const noexcept { return v_; }
        [[nodiscard]] sort_direction direction() const noexcept { return d_; }
    private:
        descriptor::variable v_;
        sort_direction d_;
    };
    limit(std::optional<std::size_t> c, variables gs, std::vector<sort_key> ss) : c_ { c }, gs_ { std::move(gs) }, ss_ { std::move(ss) } {}
    [[nodiscard]] std::optional<std::size_t> const& count() const noexcept { return c_; }
    limit& count(std::optional<std::size_t> c) noexcept { c_ = c; return *this; }
    [[nodiscard]] variables const& group_keys() const noexcept { return gs_; }
    [[nodiscard]] std::vector<sort_key> const& sort_keys() const noexcept { return ss_; }
private:
    std::optional<std::size_t> c_;
    variables gs_;
    std::vector<sort_key> ss_;
};
class union_ : public merge_node<expression_kind::union_> {
public:
    class mapping {
    public:
        mapping(std::optional<descriptor::variable> l, std::optional<descriptor::variable> r, descriptor::variable d) : l_ { std::move(l) }, r_ { std::move(r) }, d_ { std::move(d) } {}
        [[nodiscard]] std::optional<descriptor::variable> const& left() const noexcept { return l_; }
        [[nodiscard]] std::optional<descriptor::variable> const& right() const noexcept { return r_; }
        [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
    private:
        std::optional<descriptor::variable> l_;
        std::optional<descriptor::variable> r_;
        descriptor::variable d_;
    };
    union_(set_quantifier q, std::vector<mapping> ms) : q_ { q }, ms_ { std::move(ms) } {}
    [[nodiscard]] set_quantifier quantifier() const noexcept { return q_; }
    [[nodiscard]] std::vector<mapping> const& mappings() const noexcept { return ms_; }
private:
    set_quantifier q_;
    std::vector<mapping> ms_;
};
template<expression_kind K>
class set_operation : public merge_node<K> {
public:
    class group_key_pair {
    public:
        group_key_pair(descriptor::variable l, descriptor::variable r) : l_ { std::move(l) }, r_ { std::move(r) } {}
        [[nodiscard]] descriptor::variable const& left() const noexcept { return l_; }
        [[nodiscard]] descriptor::variable const& right() const noexcept { return r_; }
    private:
        descriptor::variable l_;
        descriptor::variable r_;
    };
    set_operation(set_quantifier q, std::vector<group_key_pair> ms) : q_ { q }, ms_ { std::move(ms) } {}
    [[nodiscard]] set_quantifier quantifier() const noexcept { return q_; }
    [[nodiscard]] std::vector<group_key_pair> const& group_key_pairs() const noexcept { return ms_; }
private:
    set_quantifier q_;
    std::vector<group_key_pair> ms_;
};
using difference = set_operation<expression_kind::difference>;
using intersection = set_operation<expression_kind::intersection>;
class aggregate_column {
public:
    aggregate_column(descriptor::aggregate_function f, variables as, descriptor::variable d) : f_ { std::move(f) }, as_ { std::move(as) }, d_ { std::move(d) } {}
    [[nodiscard]] descriptor::aggregate_function const& function() const noexcept { return f_; }
    [[nodiscard]] variables const& arguments() const noexcept { return as_; }
    [[nodiscard]] descriptor::variable const& destination() const noexcept { return d_; }
private:
    descriptor::aggregate_function f_;
    variables as_;
    descriptor::variable d_;
};
class aggregate : public pipe_node<expression_kind::aggregate> {
public:
    using column = aggregate_column;
    aggregate(variables ks, std::vector<column> cs) : ks_ { std::move(ks) }, cs_ { std::move(cs) } {}
    [[nodiscard]] variables& group_keys() noexcept { return ks_; }
    [[nodiscard]] variables const& group_keys() const noexcept { return ks_; }
    [[nodiscard]] std::vector<column>& columns() noexcept { return cs_; }
    [[nodiscard]] std::vector<column> const& columns() const noexcept { return cs_; }
private:
    variables ks_;
    std::vector<column> cs_;
};
} // namespace intermediate
} // namespace takatori::relation
namespace yugawara::extension::relation {
class subquery : public ::takatori::relation::with_output<::takatori::relation::node<::takatori::relation::expression_kind::extension>> {
public:
    using mapping_type = ::takatori::relation::mapping_element;
    using output_port_type = ::takatori::relation::output_port;
    subquery(::takatori::relation::graph_type g, std::vector<mapping_type> ms, bool cloned) : g_ { std::move(g) }, ms_ { std::move(ms) }, cloned_ { cloned } {}
    [[nodiscard]] ::takatori::relation::graph_type const& query_graph() const noexcept { return g_; }
    [[nodiscard]] std::vector<mapping_type> const& mappings() const noexcept { return ms_; }
    [[nodiscard]] bool is_clone() const noexcept { return cloned_; }
    [[nodiscard]] ::takatori::util::optional_ptr<output_port_type> find_output_port() noexcept { return g_.open_output(); }
private:
    ::takatori::relation::graph_type g_;
    std::vector<mapping_type> ms_;
    bool cloned_;
};
} // namespace yugawara::extension::relation
namespace yugawara::extension::scalar {
using parameter = ::takatori::relation::mapping_element;
using ::takatori::scalar::expr_ptr;
using ::takatori::scalar::ownership_reference;
using expression = ::takatori::scalar::expression;
class aggregate_function_call : public ::takatori::scalar::extension {
public:
    static constexpr extension_id_type extension_tag = 1;
    aggregate_function_call(::takatori::descriptor::aggregate_function f, ::takatori::util::reference_vector<expression> as) : f_ { std::move(f) }, as_ { std::move(as) } {}
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
    [[nodiscard]] ::takatori::descriptor::aggregate_function& function() noexcept { return f_; }
    [[nodiscard]] ::takatori::descriptor::aggregate_function const& function() const noexcept { return f_; }
    [[nodiscard]] ::takatori::util::reference_vector<expression>& arguments() noexcept { return as_; }
    [[nodiscard]] ::takatori::util::reference_vector<expression> const& arguments() const noexcept { return as_; }
private:
    ::takatori::descriptor::aggregate_function f_;
    ::takatori::util::reference_vector<expression> as_;
};
class graph_expression : public ::takatori::scalar::extension {
public:
    using parameter_type = parameter;
    graph_expression(::takatori::relation::graph_type g, std::vector<parameter_type> ps) : g_ { std::move(g) }, ps_ { std::move(ps) } {}
    [[nodiscard]] ::takatori::relation::graph_type const& query_graph() const noexcept { return g_; }
    [[nodiscard]] std::vector<parameter_type> const& parameters() const noexcept { return ps_; }
private:
    ::takatori::relation::graph_type g_;
    std::vector<parameter_type> ps_;
};
class subquery : public graph_expression {
public:
    static constexpr extension_id_type extension_tag = 2;
    subquery(::takatori::relation::graph_type g, std::vector<parameter_type> ps, ::takatori::descriptor::variable o) : graph_expression { std::move(g), std::move(ps) }, o_ { std::move(o) } {}
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
    [[nodiscard]] ::takatori::descriptor::variable const& output_column() const noexcept { return o_; }
private:
    ::takatori::descriptor::variable o_;
};
class exists : public graph_expression {
public:
    static constexpr extension_id_type extension_tag = 3;
    using graph_expression::graph_expression;
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
};
class quantified_compare : public graph_expression {
public:
    static constexpr extension_id_type extension_tag = 4;
    quantified_compare(::takatori::scalar::comparison_operator c, ::takatori::scalar::quantifier q, expr_ptr l, ::takatori::relation::graph_type g, std::vector<parameter_type> ps, ::takatori::descriptor::variable o) :
        graph_expression { std::move(g), std::move(ps) }, c_ { c }, q_ { q }, left_ { std::move(l) }, o_ { std::move(o) } {}
    [[nodiscard]] extension_id_type extension_id() const noexcept override { return extension_tag; }
    [[nodiscard]] ::takatori::scalar::comparison_operator operator_kind() const noexcept { return c_; }
    [[nodiscard]] ::takatori::scalar::quantifier quantifier() const noexcept { return q_; }
    [[nodiscard]] ::takatori::descriptor::variable const& right_column() const noexcept { return o_; }
    MZ_PART(left)
private:
    ::takatori::scalar::comparison_operator c_;
    ::takatori::scalar::quantifier q_;
    expr_ptr left_;
    ::takatori::descriptor::variable o_;
};
} // namespace yugawara::extension::scalar
