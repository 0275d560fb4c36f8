#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <takatori/descriptor/variable.h>
#include <impl/catalog.h>
#include <takatori/descriptor/element.h>
namespace yugawara::binding {
class factory {
    using variable = ::takatori::descriptor::variable;
public:
    [[nodiscard]] variable stream_variable(std::string_view label = {}) const { return make("stream", label); }
    [[nodiscard]] variable local_variable(std::string_view label = {}) const { return make("local", label); }
    [[nodiscard]] variable frame_variable(std::string_view label = {}) const { return make("frame", label); }
    [[nodiscard]] variable frame_variable(variable const& origin) const { auto r = make("frame", origin.reference().label); r.shared_reference()->origin = origin.shared_reference(); return r; }
    [[nodiscard]] variable external_variable(std::shared_ptr<::yugawara::variable::declaration const> d) const { return declared("external", d->name(), d.get()); }
    [[nodiscard]] variable operator()(std::shared_ptr<::yugawara::variable::declaration const> d) const { return external_variable(std::move(d)); }
    [[nodiscard]] variable table_column(::yugawara::storage::column const& c) const { return declared("column", c.simple_name(), &c); }
    [[nodiscard]] variable operator()(::yugawara::storage::column const& c) const { return table_column(c); }
    [[nodiscard]] variable stream_variable(variable const& origin) const { return make("stream", origin.reference().label); }
    [[nodiscard]] ::takatori::descriptor::index operator()(std::shared_ptr<::yugawara::storage::index const> i) const { return { std::move(i) }; }
    [[nodiscard]] ::takatori::descriptor::index operator()(::yugawara::storage::index const& i) const { return { ::takatori::util::maybe_shared_ptr<::yugawara::storage::index const> { &i } }; }
    [[nodiscard]] ::takatori::descriptor::index index(std::shared_ptr<::yugawara::storage::index const> i) const { return { std::move(i) }; }
    [[nodiscard]] ::takatori::descriptor::storage operator()(std::shared_ptr<::yugawara::storage::table const> t) const { return storage(std::move(t)); }
    [[nodiscard]] ::takatori::descriptor::storage storage(std::shared_ptr<::yugawara::storage::table const> t) const { return { ::takatori::util::maybe_shared_ptr<::yugawara::storage::relation const> { std::shared_ptr<::yugawara::storage::relation const> { std::move(t) } } }; }
    [[nodiscard]] ::takatori::descriptor::schema operator()(::takatori::util::maybe_shared_ptr<::yugawara::schema::declaration const> s) const { return { std::move(s) }; }
    [[nodiscard]] ::takatori::descriptor::schema schema(::takatori::util::maybe_shared_ptr<::yugawara::schema::declaration const> s) const { return { std::move(s) }; }
    [[nodiscard]] ::takatori::descriptor::function operator()(std::shared_ptr<::yugawara::function::declaration const> f) const { return { std::move(f) }; }
    [[nodiscard]] ::takatori::descriptor::aggregate_function operator()(std::shared_ptr<aggregate::declaration const> f) const { return { std::move(f) }; }
private:
    static variable make(std::string_view kind, std::string_view label) {
        auto r = std::make_shared<variable::object>();
        r->kind = kind;
        r->label = label;
        return variable { std::move(r) };
    }
    static variable declared(std::string_view kind, std::string_view label, void const* d) {
        auto v = make(kind, label);
        v.shared_reference()->declaration = d;
        return v;
    }
};
enum class variable_info_kind { table_column, exchange_column, external_variable, frame_variable, stream_variable, local_variable };
class variable_info {
public:
    explicit variable_info(variable_info_kind k) : k_ { k } {}
    [[nodiscard]] variable_info_kind kind() const noexcept { return k_; }
private:
    variable_info_kind k_;
};
inline variable_info unwrap(::takatori::descriptor::variable const& v) {
    auto&& k = v.reference().kind;
    if (k == "column") return variable_info { variable_info_kind::table_column };
    if (k == "external") return variable_info { variable_info_kind::external_variable };
    if (k == "frame") return variable_info { variable_info_kind::frame_variable };
    if (k == "local") return variable_info { variable_info_kind::local_variable };
    return variable_info { variable_info_kind::stream_variable };
}
template<class T>
::takatori::util::optional_ptr<T const> extract_if(::takatori::descriptor::variable const& v) {
    if (v.reference().kind != "column") return {};
    return ::takatori::util::optional_ptr<T const> { static_cast<T const*>(v.reference().declaration) };
}
inline std::shared_ptr<::yugawara::function::declaration const> extract_shared(::takatori::descriptor::function const& f) { return f.shared().ownership(); }
} // namespace yugawara::binding
