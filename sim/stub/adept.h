// Stands in for the Adept library, which is not installed: variables are plain
// doubles and nothing is differentiated. The solver that would differentiate
// is a stub of the harness.
#pragma once
#ifndef ADEPT_NO_AUTOMATIC_DIFFERENTIATION
#define ADEPT_NO_AUTOMATIC_DIFFERENTIATION
#endif
namespace adept {
    typedef double adouble;
    inline double value(double v) { return v; }
    struct Stack {};
}
