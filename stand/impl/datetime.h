// stand-in for takatori::datetime
#pragma once
#include <chrono>
#include <cstdint>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
namespace takatori::datetime {
using difference = std::chrono::nanoseconds;
class date {
public:
    constexpr date() noexcept = default;
    explicit constexpr date(std::int64_t days) noexcept : days_ { days } {}
    date(std::int32_t year, std::uint32_t month, std::uint32_t day) noexcept {
        std::int64_t y = year - (month <= 2 ? 1 : 0);
        std::int64_t era = (y >= 0 ? y : y - 399) / 400;
        auto yoe = static_cast<std::int64_t>(y - era * 400);
        std::int64_t doy = (153 * (static_cast<std::int64_t>(month) + (month > 2 ? -3 : 9)) + 2) / 5 + day - 1;
        std::int64_t doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        days_ = era * 146097 + doe - 719468;
    }
    [[nodiscard]] constexpr std::int64_t days_since_epoch() const noexcept { return days_; }
    friend constexpr bool operator==(date a, date b) noexcept { return a.days_ == b.days_; }
    friend constexpr bool operator!=(date a, date b) noexcept { return a.days_ != b.days_; }
private:
    std::int64_t days_ {};
};
class time_of_day {
public:
    using time_unit = std::chrono::nanoseconds;
    constexpr time_of_day() noexcept = default;
    explicit constexpr time_of_day(time_unit since) noexcept : since_ { since } {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit sub = {}) noexcept :
        since_ { std::chrono::hours { h } + std::chrono::minutes { m } + std::chrono::seconds { s } + sub } {}
    [[nodiscard]] constexpr time_unit time_since_epoch() const noexcept { return since_; }
    friend constexpr bool operator==(time_of_day a, time_of_day b) noexcept { return a.since_ == b.since_; }
    friend constexpr bool operator!=(time_of_day a, time_of_day b) noexcept { return a.since_ != b.since_; }
private:
    time_unit since_ {};
};
class time_point {
public:
    using offset_type = std::chrono::seconds;
    constexpr time_point() noexcept = default;
    constexpr time_point(date d, time_of_day t) noexcept {
        auto sub = t.time_since_epoch();
        auto s = std::chrono::duration_cast<std::chrono::seconds>(sub);
        seconds_ = std::chrono::seconds { d.days_since_epoch() * 86400 } + s;
        sub_ = sub - s;
    }
    [[nodiscard]] constexpr std::chrono::seconds seconds_since_epoch() const noexcept { return seconds_; }
    [[nodiscard]] constexpr std::chrono::nanoseconds subsecond() const noexcept { return sub_; }
    template<class R, class P> time_point& operator+=(std::chrono::duration<R, P> d) noexcept { shift(std::chrono::duration_cast<std::chrono::nanoseconds>(d)); return *this; }
    template<class R, class P> time_point& operator-=(std::chrono::duration<R, P> d) noexcept { shift(-std::chrono::duration_cast<std::chrono::nanoseconds>(d)); return *this; }
    template<class R, class P> friend time_point operator+(time_point t, std::chrono::duration<R, P> d) noexcept { t += d; return t; }
    template<class R, class P> friend time_point operator-(time_point t, std::chrono::duration<R, P> d) noexcept { t -= d; return t; }
    friend constexpr bool operator==(time_point a, time_point b) noexcept { return a.seconds_ == b.seconds_ && a.sub_ == b.sub_; }
    friend constexpr bool operator!=(time_point a, time_point b) noexcept { return !(a == b); }
private:
    std::chrono::seconds seconds_ {};
    std::chrono::nanoseconds sub_ {};
    void shift(std::chrono::nanoseconds d) noexcept {
        auto n = sub_ + d;
        auto s = std::chrono::floor<std::chrono::seconds>(n);
        seconds_ += s;
        sub_ = n - s;
    }
};
struct date_info { std::uint32_t year {}; std::uint32_t month {}; std::uint32_t day {}; };
struct time_info { std::uint32_t hour {}; std::uint32_t minute {}; std::uint32_t second {}; std::chrono::nanoseconds subsecond {}; };
struct zone_offset_info { bool plus { true }; std::uint32_t hour {}; std::uint32_t minute {}; };
struct datetime_info { date_info date {}; time_info time {}; std::optional<zone_offset_info> offset {}; };
template<class T>
class conversion_result {
public:
    conversion_result(T v) : value_ { std::move(v) } {} // NOLINT
    static conversion_result failure(std::string e) { conversion_result r; r.error_ = std::move(e); return r; }
    [[nodiscard]] bool is_success() const noexcept { return value_.has_value(); }
    [[nodiscard]] bool is_error() const noexcept { return !value_; }
    [[nodiscard]] bool has_value() const noexcept { return value_.has_value(); }
    [[nodiscard]] explicit operator bool() const noexcept { return value_.has_value(); }
    [[nodiscard]] T& value() { return *value_; }
    [[nodiscard]] T const& value() const { return *value_; }
    [[nodiscard]] T& operator*() { return *value_; }
    [[nodiscard]] T* operator->() { return &*value_; }
    [[nodiscard]] std::string const& error() const { return error_; }
private:
    conversion_result() = default;
    std::optional<T> value_ {};
    std::string error_ {};
};
namespace impl {
class reader {
public:
    explicit reader(std::string_view s) : s_ { s } {}
    [[nodiscard]] bool end() const { return p_ == s_.size(); }
    bool sign(char c) { if (!end() && s_[p_] == c) { ++p_; return true; } return false; }
    bool number(std::uint32_t& out, std::size_t min, std::size_t max) {
        std::size_t n = 0;
        std::uint32_t v = 0;
        while (!end() && n < max && s_[p_] >= '0' && s_[p_] <= '9') { v = v * 10 + static_cast<std::uint32_t>(s_[p_] - '0'); ++p_; ++n; }
        out = v;
        last_ = n;
        return n >= min;
    }
    [[nodiscard]] std::size_t last() const { return last_; }
    bool date(date_info& d) {
        return number(d.year, 1, 6) && sign('-') && number(d.month, 1, 2) && sign('-') && number(d.day, 1, 2)
            && d.month >= 1 && d.month <= 12 && d.day >= 1 && d.day <= days(d);
    }
    bool time(time_info& t) {
        if (!(number(t.hour, 1, 2) && sign(':') && number(t.minute, 1, 2) && sign(':') && number(t.second, 1, 2))) return false;
        if (t.hour > 23 || t.minute > 59 || t.second > 59) return false;
        if (sign('.')) {
            std::uint32_t v {};
            if (!number(v, 1, 9)) return false;
            std::int64_t ns = v;
            for (std::size_t i = last(); i < 9; ++i) ns *= 10;
            t.subsecond = std::chrono::nanoseconds { ns };
        }
        return true;
    }
    bool zone(std::optional<zone_offset_info>& z) {
        if (end()) return true;
        if (sign('Z') || sign('z')) { z = zone_offset_info {}; return true; }
        zone_offset_info r {};
        if (sign('+')) r.plus = true; else if (sign('-')) r.plus = false; else return false;
        if (!number(r.hour, 1, 2)) return false;
        if (sign(':') && !number(r.minute, 1, 2)) return false;
        if (r.hour > 13 || r.minute > 59) return false;
        z = r;
        return true;
    }
private:
    std::string_view s_;
    std::size_t p_ { 0 };
    std::size_t last_ { 0 };
    static std::uint32_t days(date_info const& d) {
        constexpr std::uint32_t n[] { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        bool leap = (d.year % 4 == 0 && d.year % 100 != 0) || d.year % 400 == 0;
        return n[d.month - 1] + (d.month == 2 && leap ? 1 : 0);
    }
};
} // namespace impl
[[nodiscard]] inline conversion_result<date_info> parse_date(std::string_view s) {
    impl::reader r { s };
    date_info d {};
    if (r.date(d) && r.end()) return d;
    return conversion_result<date_info>::failure("not a date");
}
[[nodiscard]] inline conversion_result<time_info> parse_time(std::string_view s) {
    impl::reader r { s };
    time_info t {};
    if (r.time(t) && r.end()) return t;
    return conversion_result<time_info>::failure("not a time");
}
[[nodiscard]] inline conversion_result<datetime_info> parse_datetime(std::string_view s) {
    impl::reader r { s };
    datetime_info d {};
    if (r.date(d.date) && (r.sign(' ') || r.sign('T')) && r.time(d.time) && r.zone(d.offset) && r.end()) return d;
    return conversion_result<datetime_info>::failure("not a date and time");
}
[[nodiscard]] inline conversion_result<zone_offset_info> parse_zone_offset(std::string_view s) {
    impl::reader r { s };
    std::optional<zone_offset_info> z {};
    if (r.zone(z) && r.end() && z) return *z;
    return conversion_result<zone_offset_info>::failure("not a zone offset");
}
} // namespace takatori::datetime
