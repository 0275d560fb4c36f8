// stand-in for the declarations and providers of yugawara
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <cstdint>
#include <optional>
#include <takatori/type/data.h>
#include <takatori/value/data.h>
#include <takatori/relation/sort_direction.h>
#include <takatori/util/enum_set.h>
#include <takatori/util/reference_vector.h>
#include <takatori/util/maybe_shared_ptr.h>
#include <takatori/util/optional_ptr.h>
#include <takatori/util/sequence_view.h>
namespace yugawara::variable {
class nullity {
public:
    explicit constexpr nullity(bool v) noexcept : v_ { v } {}
    [[nodiscard]] constexpr bool nullable() const noexcept { return v_; }
    constexpr nullity operator~() const noexcept { return nullity { !v_ }; }
    friend constexpr bool operator==(nullity a, nullity b) noexcept { return a.v_ == b.v_; }
    friend constexpr bool operator!=(nullity a, nullity b) noexcept { return a.v_ != b.v_; }
private:
    bool v_;
};
inline constexpr nullity nullable { true };
class criteria {
public:
    criteria() = default;
    criteria(variable::nullity n) noexcept : n_ { n } {} // NOLINT
    [[nodiscard]] variable::nullity nullity() const noexcept { return n_; }
    criteria& nullity(variable::nullity n) noexcept { n_ = n; return *this; }
private:
    variable::nullity n_ { nullable };
};
} // namespace yugawara::variable
namespace yugawara::function { class declaration; }
namespace yugawara::storage {
class relation;
class table;
class index;
class provider;
class sequence {
public:
    using value_type = std::int64_t;
    sequence(std::optional<std::size_t> id, std::string name, value_type initial, value_type increment, value_type min, value_type max, bool c) :
        definition_id { id }, simple_name { std::move(name) }, initial_value { initial }, increment_value { increment }, min_value { min }, max_value { max }, cycle { c } {}
    std::optional<std::size_t> definition_id;
    std::string simple_name;
    value_type initial_value;
    value_type increment_value;
    value_type min_value;
    value_type max_value;
    bool cycle;
};
class column_value {
public:
    column_value() = default;
    column_value(std::shared_ptr<::takatori::value::data const> v) : value { std::move(v) } {} // NOLINT
    column_value(std::shared_ptr<function::declaration const> f) : function { std::move(f) } {} // NOLINT
    column_value(std::shared_ptr<storage::sequence const> s) : sequence { std::move(s) } {} // NOLINT
    column_value(std::shared_ptr<storage::sequence> s) : sequence { std::move(s) } {} // NOLINT
    [[nodiscard]] explicit operator bool() const noexcept { return value || function || sequence; }
    std::shared_ptr<::takatori::value::data const> value {};
    std::shared_ptr<function::declaration const> function {};
    std::shared_ptr<storage::sequence const> sequence {};
};
enum class column_feature { synthesized, hidden, read_only };
using column_feature_set = ::takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
class column {
public:
    explicit column(std::string name, std::shared_ptr<::takatori::type::data const> type = {}, variable::criteria c = {}, column_value d = {}, column_feature_set f = {}, std::string description = {}) :
        name_ { std::move(name) }, type_ { std::move(type) }, criteria_ { c }, default_ { std::move(d) }, features_ { f }, description_ { std::move(description) } {}
    column(column const&) = delete;
    column& operator=(column const&) = delete;
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] ::takatori::type::data const& type() const noexcept { return *type_; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_type() const noexcept { return type_; }
    [[nodiscard]] variable::criteria& criteria() noexcept { return criteria_; }
    [[nodiscard]] variable::criteria const& criteria() const noexcept { return criteria_; }
    [[nodiscard]] column_value& default_value() noexcept { return default_; }
    [[nodiscard]] column_value const& default_value() const noexcept { return default_; }
    [[nodiscard]] column_feature_set& features() noexcept { return features_; }
    [[nodiscard]] column_feature_set const& features() const noexcept { return features_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    friend bool operator==(column const& a, column const& b) noexcept { return &a == &b; }
    friend std::ostream& operator<<(std::ostream& out, column const& v) { return out << "column(" << v.name_ << ")"; }
private:
    std::string name_;
    std::shared_ptr<::takatori::type::data const> type_;
    variable::criteria criteria_;
    column_value default_;
    column_feature_set features_;
    std::string description_;
};
using columns_type = ::takatori::util::reference_vector<column>;
enum class relation_kind { table, view };
inline std::ostream& operator<<(std::ostream& out, relation_kind k) { return out << (k == relation_kind::table ? "table" : "view"); }
class relation {
public:
    explicit relation(std::string name) : name_ { std::move(name) } {}
    virtual ~relation() = default;
    relation(relation const&) = delete;
    relation& operator=(relation const&) = delete;
    [[nodiscard]] virtual relation_kind kind() const noexcept = 0;
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] columns_type& columns() noexcept { return columns_; }
    [[nodiscard]] columns_type const& columns() const noexcept { return columns_; }
    [[nodiscard]] ::takatori::util::optional_ptr<provider const> owner() const noexcept { return owner_; }
    void bind(provider const& p) { owner_ = ::takatori::util::optional_ptr<provider const> { &p }; }
    friend std::ostream& operator<<(std::ostream& out, relation const& v) { return out << "relation(" << v.name_ << ")"; }
    friend bool operator==(relation const& a, relation const& b) noexcept { return &a == &b; }
private:
    std::string name_;
protected:
    columns_type columns_ {};
private:
    ::takatori::util::optional_ptr<provider const> owner_ {};
};
class table : public relation {
public:
    static constexpr relation_kind tag = relation_kind::table;
    using relation::relation;
    table(std::optional<std::size_t> id, std::string name, columns_type cs, std::string description = {}) : relation { std::move(name) }, id_ { id }, description_ { std::move(description) } { columns_ = std::move(cs); }
    [[nodiscard]] relation_kind kind() const noexcept override { return tag; }
    [[nodiscard]] std::optional<std::size_t> definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
    [[nodiscard]] inline std::shared_ptr<index const> find_primary_index() const;
private:
    std::optional<std::size_t> id_ {};
    std::string description_ {};
};
class view : public relation {
public:
    static constexpr relation_kind tag = relation_kind::view;
    using relation::relation;
    [[nodiscard]] relation_kind kind() const noexcept override { return tag; }
};
enum class index_feature { primary, find, scan, unique, unique_constraint };
using index_feature_set = ::takatori::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
class index {
public:
    class key {
    public:
        key(storage::column const& c, ::takatori::relation::sort_direction d = ::takatori::relation::sort_direction::ascendant) : column_ { &c }, direction_ { d } {} // NOLINT
        [[nodiscard]] storage::column const& column() const noexcept { return *column_; }
        [[nodiscard]] ::takatori::relation::sort_direction direction() const noexcept { return direction_; }
    private:
        storage::column const* column_;
        ::takatori::relation::sort_direction direction_;
    };
    using column_ref = std::reference_wrapper<storage::column const>;
    index(std::shared_ptr<storage::table const> t, std::string name) : table_ { std::move(t) }, name_ { std::move(name) } {}
    index(std::optional<std::size_t> id, std::shared_ptr<storage::table const> t, std::string name, std::vector<key> ks, std::vector<column_ref> vs, index_feature_set f, std::string description = {}) :
        id_ { id }, table_ { std::move(t) }, name_ { std::move(name) }, keys_ { std::move(ks) }, values_ { std::move(vs) }, features_ { f }, description_ { std::move(description) } {}
    [[nodiscard]] std::optional<std::size_t> definition_id() const noexcept { return id_; }
    [[nodiscard]] storage::table const& table() const noexcept { return *table_; }
    [[nodiscard]] std::string_view simple_name() const noexcept { return name_; }
    [[nodiscard]] std::vector<key> const& keys() const noexcept { return keys_; }
    [[nodiscard]] std::vector<column_ref> const& values() const noexcept { return values_; }
    [[nodiscard]] index_feature_set& features() noexcept { return features_; }
    [[nodiscard]] index_feature_set const& features() const noexcept { return features_; }
    [[nodiscard]] std::string const& description() const noexcept { return description_; }
private:
    std::optional<std::size_t> id_ {};
    std::shared_ptr<storage::table const> table_;
    std::string name_;
    std::vector<key> keys_ {};
    std::vector<column_ref> values_ {};
    index_feature_set features_ {};
    std::string description_ {};
};
class provider {
public:
    provider() = default;
    virtual ~provider() = default;
    [[nodiscard]] std::shared_ptr<relation const> find_relation(std::string_view id) const {
        auto i = relations_.find(id);
        return i == relations_.end() ? std::shared_ptr<relation const> {} : i->second;
    }
    [[nodiscard]] std::shared_ptr<table const> find_table(std::string_view id) const { return std::dynamic_pointer_cast<table const>(find_relation(id)); }
    [[nodiscard]] std::shared_ptr<index const> find_index(std::string_view id) const {
        auto i = indices_.find(id);
        return i == indices_.end() ? std::shared_ptr<index const> {} : i->second;
    }
    template<class F> void each_relation(F f) const { for (auto&& [id, r] : relations_) f(id, r); }
    template<class F> void each_index(F f) const { for (auto&& [id, i] : indices_) f(id, i); }
    [[nodiscard]] std::shared_ptr<index const> find_primary_index(table const& t) const {
        for (auto&& e : indices_) if (&e.second->table() == &t && e.second->simple_name() == t.simple_name()) return e.second;
        return {};
    }
protected:
    std::map<std::string, std::shared_ptr<relation const>, std::less<>> relations_ {};
    std::map<std::string, std::shared_ptr<index const>, std::less<>> indices_ {};
};
std::shared_ptr<index const> table::find_primary_index() const { return owner() ? owner()->find_primary_index(*this) : std::shared_ptr<index const> {}; }
class configurable_provider : public provider {
public:
    std::shared_ptr<relation const> add_relation(std::shared_ptr<relation> r) { r->bind(*this); return relations_[std::string { r->simple_name() }] = std::move(r); }
    std::shared_ptr<table const> add_table(std::shared_ptr<table> r) { add_relation(r); return r; }
    std::shared_ptr<index const> add_index(std::shared_ptr<index> i) { return indices_[std::string { i->simple_name() }] = std::move(i); }
};
} // namespace yugawara::storage
namespace yugawara::variable {
class declaration {
public:
    explicit declaration(std::string name, std::shared_ptr<::takatori::type::data const> type = {}) : name_ { std::move(name) }, type_ { std::move(type) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> const& shared_type() const noexcept { return type_; }
private:
    std::string name_;
    std::shared_ptr<::takatori::type::data const> type_;
};
class provider {
public:
    virtual ~provider() = default;
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view id) const {
        auto i = vs_.find(id);
        return i == vs_.end() ? std::shared_ptr<declaration const> {} : i->second;
    }
protected:
    std::map<std::string, std::shared_ptr<declaration const>, std::less<>> vs_ {};
};
class configurable_provider : public provider {
public:
    std::shared_ptr<declaration const> add(std::shared_ptr<declaration> d) { return vs_[std::string { d->name() }] = std::move(d); }
};
} // namespace yugawara::variable
namespace yugawara::impl {
class callable {
public:
    using types = std::vector<std::shared_ptr<::takatori::type::data const>>;
    callable(std::string name, std::size_t arguments) : name_ { std::move(name) }, arguments_ { arguments } {}
    callable(std::size_t id, std::string name, std::shared_ptr<::takatori::type::data const> r, types ps) : id_ { id }, name_ { std::move(name) }, arguments_ { ps.size() }, return_ { std::move(r) }, parameters_ { std::move(ps) } {}
    [[nodiscard]] std::size_t definition_id() const noexcept { return id_; }
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] std::size_t arguments() const noexcept { return arguments_; }
    [[nodiscard]] ::takatori::type::data const& return_type() const noexcept { return *return_; }
    [[nodiscard]] std::shared_ptr<::takatori::type::data const> shared_return_type() const noexcept { return return_; }
    [[nodiscard]] types const& shared_parameter_types() const noexcept { return parameters_; }
private:
    std::size_t id_ {};
    std::string name_;
    std::size_t arguments_;
    std::shared_ptr<::takatori::type::data const> return_ {};
    types parameters_ {};
};
template<class D>
class callables {
public:
    using consumer_type = std::function<void(std::shared_ptr<D const> const&)>;
    virtual ~callables() = default;
    void each(consumer_type const& c) const { for (auto&& d : ds_) c(d); }
    void each(std::string_view name, std::size_t n, consumer_type const& c) const { for (auto&& d : ds_) if (d->name() == name && d->arguments() == n) c(d); }
    std::shared_ptr<D const> add(std::shared_ptr<D> d) { ds_.push_back(d); return d; }
private:
    std::vector<std::shared_ptr<D const>> ds_ {};
};
} // namespace yugawara::impl
namespace yugawara::function {
enum class function_feature { scalar_function, table_valued_function };
using function_feature_set = ::takatori::util::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;
class declaration : public impl::callable {
public:
    using callable::callable;
    declaration(std::size_t id, std::string name, std::shared_ptr<::takatori::type::data const> r, types ps, function_feature_set f) : callable { id, std::move(name), std::move(r), std::move(ps) }, features_ { f } {}
    [[nodiscard]] function_feature_set const& features() const noexcept { return features_; }
private:
    function_feature_set features_ { function_feature::scalar_function };
};
using provider = impl::callables<declaration>;
using configurable_provider = provider;
} // namespace yugawara::function
namespace yugawara::aggregate {
class declaration : public impl::callable {
public:
    static constexpr std::string_view name_suffix_distinct { "$distinct" };
    using callable::callable;
};
using provider = impl::callables<declaration>;
using configurable_provider = provider;
} // namespace yugawara::aggregate
namespace yugawara::schema {
class declaration {
public:
    explicit declaration(std::string_view name,
            ::takatori::util::maybe_shared_ptr<storage::provider const> s = {}, ::takatori::util::maybe_shared_ptr<variable::provider const> v = {},
            ::takatori::util::maybe_shared_ptr<function::provider const> f = {}, ::takatori::util::maybe_shared_ptr<aggregate::provider const> a = {}) :
        name_ { name }, s_ { std::move(s) }, v_ { std::move(v) }, f_ { std::move(f) }, a_ { std::move(a) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] storage::provider const& storage_provider() const noexcept { static storage::provider const none {}; return s_ ? *s_ : none; }
    [[nodiscard]] ::takatori::util::maybe_shared_ptr<storage::provider const> const& shared_storage_provider() const noexcept { return s_; }
    [[nodiscard]] variable::provider const& variable_provider() const noexcept { static variable::provider const none {}; return v_ ? *v_ : none; }
    [[nodiscard]] function::provider const& function_provider() const noexcept { static function::provider const none {}; return f_ ? *f_ : none; }
    [[nodiscard]] aggregate::provider const& set_function_provider() const noexcept { static aggregate::provider const none {}; return a_ ? *a_ : none; }
private:
    std::string name_;
    ::takatori::util::maybe_shared_ptr<storage::provider const> s_;
    ::takatori::util::maybe_shared_ptr<variable::provider const> v_;
    ::takatori::util::maybe_shared_ptr<function::provider const> f_;
    ::takatori::util::maybe_shared_ptr<aggregate::provider const> a_;
};
class provider {
public:
    virtual ~provider() = default;
    [[nodiscard]] std::shared_ptr<declaration const> find(std::string_view id) const {
        auto i = ss_.find(id);
        return i == ss_.end() ? std::shared_ptr<declaration const> {} : i->second;
    }
    std::shared_ptr<declaration const> add(std::shared_ptr<declaration> d) { return ss_[std::string { d->name() }] = std::move(d); }
private:
    std::map<std::string, std::shared_ptr<declaration const>, std::less<>> ss_ {};
};
using configurable_provider = provider;
class catalog {
public:
    explicit catalog(std::string_view name, ::takatori::util::maybe_shared_ptr<provider const> p = {}) : name_ { name }, p_ { std::move(p) } {}
    [[nodiscard]] std::string_view name() const noexcept { return name_; }
    [[nodiscard]] provider const& schema_provider() const noexcept { static provider const none {}; return p_ ? *p_ : none; }
private:
    std::string name_;
    ::takatori::util::maybe_shared_ptr<provider const> p_;
};
class search_path {
public:
    using element_type = ::takatori::util::maybe_shared_ptr<declaration const>;
    search_path() = default;
    explicit search_path(std::vector<element_type> es) : es_ { std::move(es) } {}
    [[nodiscard]] std::vector<element_type> const& elements() const noexcept { return es_; }
private:
    std::vector<element_type> es_ {};
};
} // namespace yugawara::schema
