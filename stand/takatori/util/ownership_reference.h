#pragma once
#include <memory>
#include <utility>
#include <takatori/util/optional_ptr.h>
namespace takatori::util {
/// refers to the owner of an object, so that the object can be exchanged
template<class T>
class ownership_reference {
public:
    explicit ownership_reference(std::unique_ptr<T>& p) noexcept : ptr_ { &p } {}
    [[nodiscard]] T& get() const noexcept { return **ptr_; }
    [[nodiscard]] T& operator*() const noexcept { return **ptr_; }
    [[nodiscard]] T* operator->() const noexcept { return ptr_->get(); }
    void set(std::unique_ptr<T> v) const { *ptr_ = std::move(v); }
    [[nodiscard]] std::unique_ptr<T> exchange(std::unique_ptr<T> v) const { return std::exchange(*ptr_, std::move(v)); }
    [[nodiscard]] explicit operator bool() const noexcept { return *ptr_ != nullptr; }
private:
    std::unique_ptr<T>* ptr_;
};
} // namespace takatori::util
