#pragma once
#include <simrt.hpp>
#include <algorithm>
#include <chrono>

#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace sim = simrt;

namespace harness {
    template<class... A> std::string text(const A &... a) {
        std::ostringstream o;
        (o << ... << a);
        return o.str();
    }
    // reports a violated oracle; classes are prefixed by the property
    template<class... A> [[noreturn]] void violated(const std::string &what, const A &... a) {
        simrt::quiet q;
        simrt::fail("oracle:" + what, text(a...));
    }
    inline bool is(const char *p) { return property == p; }
    struct injected_error : std::exception {
        const char *what() const noexcept override { return "injected"; }
    };
}
