#pragma once
#include <memory>
#include <optional>
#include <ostream>
#include <vector>
namespace takatori::util {
template<class T>
class print_support {
public:
    explicit constexpr print_support(T const& v) noexcept : v_ { v } {}
    friend std::ostream& operator<<(std::ostream& out, print_support const& p) { show(out, p.v_); return out; }
private:
    T const& v_;
    template<class U> static void show(std::ostream& out, U const& v) { out << v; }
    template<class U> static void show(std::ostream& out, std::optional<U> const& v) { if (v) show(out, *v); else out << "(empty)"; }
    template<class U> static void show(std::ostream& out, std::shared_ptr<U> const& v) { if (v) show(out, *v); else out << "(empty)"; }
    template<class U> static void show(std::ostream& out, std::unique_ptr<U> const& v) { if (v) show(out, *v); else out << "(empty)"; }
    template<class U> static void show(std::ostream& out, std::vector<U> const& v) { out << "["; for (auto&& x : v) { show(out, x); out << ","; } out << "]"; }
};
template<class T> print_support(T const&) -> print_support<T>;
} // namespace takatori::util
