// stand-in for takatori::statement
#pragma once
#include <impl/relations.h>
#include <takatori/util/enum_set.h>
namespace takatori::statement {
enum class statement_kind { empty, create_table, create_index, rename_table, rename_column, rename_index, drop_table, drop_index, truncate_table, grant_table, revoke_table, write };
class statement {
public:
    statement() = default;
    virtual ~statement() = default;
    statement(statement const&) = delete;
    statement& operator=(statement const&) = delete;
    [[nodiscard]] virtual statement_kind kind() const noexcept = 0;
    [[nodiscard]] document::region& region() noexcept { return region_; }
    [[nodiscard]] document::region const& region() const noexcept { return region_; }
private:
    document::region region_ {};
};
/// a statement that is just the tuple of its parts
template<statement_kind K, class... P>
class simple : public statement {
public:
    static constexpr statement_kind tag = K;
    explicit simple(P... ps) : parts { std::move(ps)... } {}
    [[nodiscard]] statement_kind kind() const noexcept override { return K; }
    std::tuple<P...> parts;
};
using empty = simple<statement_kind::empty>;
using create_table = simple<statement_kind::create_table, descriptor::schema, descriptor::storage, descriptor::index>;
using create_index = simple<statement_kind::create_index, descriptor::schema, descriptor::index>;
using rename_table = simple<statement_kind::rename_table, descriptor::schema, descriptor::storage, std::string>;
using rename_column = simple<statement_kind::rename_column, descriptor::storage, descriptor::variable, std::string>;
using rename_index = simple<statement_kind::rename_index, descriptor::schema, descriptor::index, std::string>;
using drop_table = simple<statement_kind::drop_table, descriptor::schema, descriptor::storage>;
using drop_index = simple<statement_kind::drop_index, descriptor::schema, descriptor::index>;
enum class truncate_table_option_kind { restart_identity };
class truncate_table : public statement {
public:
    static constexpr statement_kind tag = statement_kind::truncate_table;
    class option_set_type {
    public:
        void insert(truncate_table_option_kind) { restart = true; }
        bool restart { false };
    };
    truncate_table(descriptor::storage t, option_set_type o) : target { std::move(t) }, options { o } {}
    [[nodiscard]] statement_kind kind() const noexcept override { return tag; }
    descriptor::storage target;
    option_set_type options;
};
enum class table_action_kind { control, select, insert, update, delete_ };
inline std::string_view to_string_view(table_action_kind k) { static constexpr std::string_view ns[] { "control", "select", "insert", "update", "delete" }; return ns[static_cast<int>(k)]; }
enum class authorization_user_kind { specified, current_user, all_users };
inline std::string_view to_string_view(authorization_user_kind k) { static constexpr std::string_view ns[] { "specified", "current_user", "all_users" }; return ns[static_cast<int>(k)]; }
namespace details {
class table_privilege_action {
public:
    table_privilege_action(table_action_kind k) : k_ { k } {} // NOLINT
    [[nodiscard]] table_action_kind action_kind() const noexcept { return k_; }
private:
    table_action_kind k_;
};
struct table_authorization_entry {
    table_authorization_entry(authorization_user_kind k, std::string u, std::vector<table_privilege_action> ps) : kind { k }, user { std::move(u) }, privileges { std::move(ps) } {}
    authorization_user_kind kind;
    std::string user;
    std::vector<table_privilege_action> privileges;
};
struct table_privilege_element {
    table_privilege_element(descriptor::storage t, std::vector<table_privilege_action> ds, std::vector<table_authorization_entry> es) : table { std::move(t) }, defaults { std::move(ds) }, entries { std::move(es) } {}
    descriptor::storage table;
    std::vector<table_privilege_action> defaults;
    std::vector<table_authorization_entry> entries;
};
} // namespace details
using grant_table = simple<statement_kind::grant_table, std::vector<details::table_privilege_element>>;
using revoke_table = simple<statement_kind::revoke_table, std::vector<details::table_privilege_element>>;
class write : public statement {
public:
    static constexpr statement_kind tag = statement_kind::write;
    using column = descriptor::variable;
    class tuple {
    public:
        explicit tuple(std::vector<std::unique_ptr<scalar::expression>> es) : elements { std::move(es) } {}
        explicit tuple(util::reference_vector<scalar::expression> es) : elements { es.release_elements() } {}
        std::vector<std::unique_ptr<scalar::expression>> elements;
    };
    write(relation::write_kind k, descriptor::relation d, std::vector<column> cs, std::vector<tuple> ts) : operator_kind { k }, destination { std::move(d) }, columns { std::move(cs) }, tuples { std::move(ts) } {}
    [[nodiscard]] statement_kind kind() const noexcept override { return tag; }
    relation::write_kind operator_kind;
    descriptor::relation destination;
    std::vector<column> columns;
    std::vector<tuple> tuples;
};
} // namespace takatori::statement
