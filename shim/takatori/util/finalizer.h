#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
class finalizer {
public:
    finalizer() = default;
    explicit finalizer(std::function<void()> f) : f_ { std::move(f) } {}
    ~finalizer() { if (f_) f_(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& o) noexcept : f_ { std::exchange(o.f_, nullptr) } {}
    finalizer& operator=(finalizer&& o) noexcept { if (f_) f_(); f_ = std::exchange(o.f_, nullptr); return *this; }
    [[nodiscard]] bool has_action() const noexcept { return static_cast<bool>(f_); }
    explicit operator bool() const noexcept { return has_action(); }
    void dispose() { if (auto f = std::exchange(f_, nullptr)) f(); }
    void cancel() noexcept { f_ = nullptr; }
private:
    std::function<void()> f_;
};
} // namespace takatori::util
