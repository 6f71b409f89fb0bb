#pragma once
#include <folly/Portability.h>
namespace folly {
struct Unit {
    template <class T> using Lift = std::conditional<std::is_void<T>::value, Unit, T>;
    template <class T> using LiftT = typename Lift<T>::type;
    constexpr bool operator==(const Unit&) const { return true; }
    constexpr bool operator!=(const Unit&) const { return false; }
};
constexpr Unit unit{};
}
