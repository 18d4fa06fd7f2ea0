#pragma once
// names and messages are not observable: text built by the scheme headers is replaced by nothing
#include <sstream>
#include <iomanip>
#include <iostream>
#include <string>
#include <regex>
#include <random>
#include <fstream>
#include <fmt/format.h>
#include <fmt/color.h>
#include <CLI/CLI.hpp>
#include <samurai/timers.hpp>
namespace std {
  struct vp_text { template <class T> vp_text& operator<<(const T&) { return *this; } vp_text& operator<<(ios_base& (*)(ios_base&)) { return *this; } vp_text& operator<<(ostream& (*)(ostream&)) { return *this; } string str() const { return {}; } };
  template <class T> string vp_to_string(const T&) { return {}; }
}
#define ostringstream vp_text
#define stringstream vp_text
#define to_string vp_to_string
