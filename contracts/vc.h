// Specification language of the contracts.  The same text is (a) executed symbolically by
// /verif/engine for all inputs and (b) compiled natively for the replay of counterexamples.
#pragma once
#include <cstddef>
extern "C" {
double nd_r(const char *name);                       // arbitrary real
double nd_r1(const char *name, long i);              // arbitrary real for each i
double nd_r2(const char *name, long i, long j);
double nd_r3(const char *name, long i, long j, long k);
long nd_i(const char *name, long lo, long hi);       // arbitrary integer in [lo,hi]
long nd_n(const char *name, long lo, long hi);       // the same, used for sizes (natively kept small)
long nd_i1(const char *name, long i, long lo, long hi);
int nd_b(const char *name);                          // arbitrary boolean
int nd_b1(const char *name, long i);
double nd_f5(const char *name, long id, double t, double x, double y, double z);  // arbitrary function
double nd_f4(const char *name, double t, double x, double y, double z);
double nd_f2(const char *name, long id, double x);
double nd_f1(const char *name, double x);
void vc_requires(bool c);                            // precondition
void vc_assume(bool c, const char *why);             // unchecked assumption (listed in the evidence)
void vc_ensures(bool c, const char *label);          // postcondition
void vc_ensures_eq(double a, double b, const char *label);
void vc_ensures_eqs(double a, double b, double scale, const char *label); // scale: native rounding scale
void vc_ensures_eqi(long a, long b, const char *label);
void vc_increasing(const char *name, long n);          // precondition: name(0) < name(1) < ... < name(n-1)
void vc_assert(bool c, const char *label);              // proved, then used as a fact
void vc_assert_eqs(double a, double b, double scale, const char *label);
void vc_root(double v, const char *label);              // proves v >= 0; sqrt(k*v*v) is then sqrt(k)*v
void vc_value(double v);                                // quotients equal to k*v are recognised
void vc_index(long i);                               // loop indices ending with this value or the next are recognised
double vc_ghost(double v);                           // names an intermediate value (identity)
void vc_cover(const char *label);                    // must be reachable
void vc_replace(const char *callee, const char *contract); // use contract instead of the callee's body
double vc_deriv(double f, double x);                 // partial derivative of f with respect to the input x (engine only)
void vc_math_atan(double x, double y);               // textbook facts: atan is increasing, approaches its limits like 1/x
bool vc_engine();                                    // true for the verifier, false natively
}
