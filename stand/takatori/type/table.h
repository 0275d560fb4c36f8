#pragma once
#include <memory>
#include <string>
#include <vector>
#include <takatori/type/data.h>
namespace takatori::type {
class table : public data {
public:
    static constexpr type_kind tag = type_kind::table;
    class column_type {
    public:
        column_type(std::string n, std::shared_ptr<data const> t) : n_ { std::move(n) }, t_ { std::move(t) } {}
        [[nodiscard]] std::string const& name() const noexcept { return n_; }
        [[nodiscard]] data const& type() const noexcept { return *t_; }
    private:
        std::string n_;
        std::shared_ptr<data const> t_;
    };
    explicit table(std::vector<column_type> cs) : cs_ { std::move(cs) } {}
    [[nodiscard]] type_kind kind() const noexcept override { return tag; }
    [[nodiscard]] table* clone() const& override { return new table(*this); }
    [[nodiscard]] table* clone() && override { return new table(*this); }
    [[nodiscard]] std::vector<column_type> const& columns() const noexcept { return cs_; }
protected:
    bool equals(data const& o) const noexcept override { return this == &o; }
    std::ostream& print_to(std::ostream& out) const override { return out << "table(" << cs_.size() << ")"; }
private:
    std::vector<column_type> cs_;
};
} // namespace takatori::type
