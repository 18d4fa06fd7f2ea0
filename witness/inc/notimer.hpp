#pragma once
// timings are not observable
#include <CLI/CLI.hpp>
#include <samurai/timers.hpp>
namespace samurai::times { struct VpTimers { template <class T> void start(const T&) {} template <class T> void stop(const T&) {} }; inline VpTimers vp_timers; }
#define timers vp_timers
