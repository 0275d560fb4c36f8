// stand-in for mpdecimal++ (the part needed here, exact arithmetic on digits)
#pragma once
#include <cstdint>
#include <cstring>
#include <ostream>
#include <stdexcept>
#include <string>
using mpd_ssize_t = std::int64_t;
using mpd_size_t = std::uint64_t;
#ifndef MPD_MAX_EMAX
#define MPD_MAX_EMAX 999999999999999999LL
#define MPD_MIN_EMIN (-999999999999999999LL)
#define MPD_MAX_PREC 999999999999999999LL
#endif
namespace decimal {
inline constexpr std::uint32_t DecInvalidOperation = 0x100;
inline constexpr std::uint32_t DecInexact = 0x40;
inline constexpr std::uint32_t DecOverflow = 0x800;
inline constexpr std::uint32_t DecRounded = 0x1000;
inline constexpr std::uint32_t DecSubnormal = 0x2000;
inline constexpr std::uint32_t DecUnderflow = 0x4000;
class ValueError : public std::runtime_error { using runtime_error::runtime_error; };
class Context {
public:
    explicit Context(mpd_ssize_t prec = 16, mpd_ssize_t emax = 999999, mpd_ssize_t emin = -999999) : prec_ { prec }, emax_ { emax }, emin_ { emin } {}
    [[nodiscard]] std::uint32_t status() const { return status_; }
    void status(std::uint32_t s) { status_ = s; }
    void clear_status() { status_ = 0; }
    void add_status(std::uint32_t s) { status_ |= s; }
    [[nodiscard]] mpd_ssize_t prec() const { return prec_; }
    [[nodiscard]] mpd_ssize_t emax() const { return emax_; }
    [[nodiscard]] mpd_ssize_t emin() const { return emin_; }
private:
    mpd_ssize_t prec_, emax_, emin_;
    std::uint32_t status_ { 0 };
};
inline thread_local Context context {};
class Decimal {
public:
    Decimal() = default;
    explicit Decimal(char const* s, Context& c = context) { set(s, c); }
    explicit Decimal(std::string const& s, Context& c = context) { set(s, c); }
    Decimal(std::int64_t v) { Context c { 20 }; set(std::to_string(v), c); } // NOLINT
    template<class Triple, class = decltype(std::declval<Triple const&>().coefficient_high())>
    explicit Decimal(Triple const& t) {
        auto v = (static_cast<unsigned __int128>(t.coefficient_high()) << 64U) | t.coefficient_low();
        digits_ = {};
        do { digits_.insert(digits_.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v != 0);
        neg_ = t.sign() < 0;
        exp_ = t.exponent();
    }
    [[nodiscard]] bool isinteger() const {
        if (exp_ >= 0 || iszero()) return true;
        auto n = static_cast<std::size_t>(-exp_);
        return n <= digits_.size() && digits_.find_first_not_of('0', digits_.size() - n) == std::string::npos;
    }
    [[nodiscard]] std::int64_t i64() const { return to_integer(static_cast<__int128>(INT64_MIN), static_cast<__int128>(INT64_MAX)); }
    [[nodiscard]] std::int32_t i32() const { return static_cast<std::int32_t>(to_integer(INT32_MIN, INT32_MAX)); }
    [[nodiscard]] mpd_ssize_t exponent() const { return exp_; }
    [[nodiscard]] int sign() const { return neg_ ? -1 : 1; }
    [[nodiscard]] bool issigned() const { return neg_; }
    [[nodiscard]] bool iszero() const { return digits_ == "0"; }
    [[nodiscard]] bool isfinite() const { return true; }
    [[nodiscard]] bool isspecial() const { return false; }
    [[nodiscard]] bool isnan() const { return false; }
    [[nodiscard]] bool isinfinite() const { return false; }
    [[nodiscard]] mpd_ssize_t adjexp() const { return static_cast<mpd_ssize_t>(digits_.size()) - 1 + exp_; }
    [[nodiscard]] bool isnormal(Context const& c = context) const { return !iszero() && adjexp() >= c.emin(); }
    [[nodiscard]] bool issubnormal(Context const& c = context) const { return !iszero() && adjexp() < c.emin(); }
    [[nodiscard]] char const* number_class(Context const& c = context) const { return iszero() ? "Zero" : isnormal(c) ? "Normal" : "Subnormal"; }
    [[nodiscard]] Decimal coeff() const { Decimal r { *this }; r.neg_ = false; r.exp_ = 0; return r; }
    [[nodiscard]] Decimal minus(Context& = context) const { Decimal r { *this }; r.neg_ = iszero() ? false : !neg_; return r; }
    [[nodiscard]] Decimal plus(Context& = context) const { Decimal r { *this }; if (iszero()) r.neg_ = false; return r; }
    [[nodiscard]] Decimal abs(Context& = context) const { Decimal r { *this }; r.neg_ = false; return r; }
    [[nodiscard]] Decimal copy_negate() const { Decimal r { *this }; r.neg_ = !neg_; return r; }
    [[nodiscard]] Decimal copy_abs() const { Decimal r { *this }; r.neg_ = false; return r; }
    [[nodiscard]] Decimal operator-() const { return minus(); }
    [[nodiscard]] std::string const& digits() const { return digits_; }
    friend std::ostream& operator<<(std::ostream& out, Decimal const& d) { return out << (d.neg_ ? "-" : "") << d.digits_ << "E" << d.exp_; }
private:
    [[nodiscard]] std::int64_t to_integer(__int128 low, __int128 high) const {
        if (!isinteger()) throw ValueError { "not an integer" };
        if (iszero()) return 0;
        std::string ds { digits_ };
        if (exp_ < 0) ds.resize(ds.size() - static_cast<std::size_t>(-exp_));
        if (static_cast<mpd_ssize_t>(ds.size()) + (exp_ > 0 ? exp_ : 0) > 20) throw ValueError { "out of range" };
        if (exp_ > 0) ds.append(static_cast<std::size_t>(exp_), '0');
        __int128 v = 0;
        for (char c : ds) v = v * 10 + (c - '0');
        if (neg_) v = -v;
        if (v < low || v > high) throw ValueError { "out of range" };
        return static_cast<std::int64_t>(v);
    }
    bool neg_ { false };
    std::string digits_ { "0" }; // no leading zeros
    mpd_ssize_t exp_ { 0 };

    void set(std::string const& s, Context& c) {
        std::size_t p = 0;
        if (p < s.size() && (s[p] == '-' || s[p] == '+')) { neg_ = s[p] == '-'; ++p; }
        std::string ds {};
        mpd_ssize_t e = 0;
        bool dot = false, any = false;
        for (; p < s.size(); ++p) {
            if (s[p] >= '0' && s[p] <= '9') { ds += s[p]; any = true; if (dot) --e; }
            else if (s[p] == '.' && !dot) dot = true;
            else break;
        }
        if (any && p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
            ++p;
            bool en = false;
            if (p < s.size() && (s[p] == '-' || s[p] == '+')) { en = s[p] == '-'; ++p; }
            mpd_ssize_t v = 0;
            bool ed = false;
            for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; ++p) { ed = true; if (v < 1000000000000LL) v = v * 10 + (s[p] - '0'); }
            if (!ed) any = false;
            e += en ? -v : v;
        }
        if (!any || p != s.size()) { c.add_status(DecInvalidOperation); throw ValueError { "conversion syntax" }; }
        auto z = ds.find_first_not_of('0');
        digits_ = z == std::string::npos ? "0" : ds.substr(z);
        exp_ = e;
        while (static_cast<mpd_ssize_t>(digits_.size()) > c.prec()) { // round half even is not needed: callers refuse rounded values
            if (digits_.back() != '0') c.add_status(DecInexact);
            c.add_status(DecRounded);
            digits_.pop_back();
            ++exp_;
        }
    }
};
} // namespace decimal
