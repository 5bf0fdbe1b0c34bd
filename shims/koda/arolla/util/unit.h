#ifndef SHIM_AROLLA_UNIT_H_
#define SHIM_AROLLA_UNIT_H_
namespace arolla { struct Unit { friend bool operator==(Unit, Unit) { return true; } }; constexpr Unit kUnit{}; }
#endif
