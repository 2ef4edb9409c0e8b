// Common prologue of the wrapper units.  Wrappers only call the real code of /repo; they contain no logic of their own.
#pragma once
#include <version>
#include <vector>
#include <array>
#include <list>
#include <algorithm>
#include <numeric>
#include <memory>
#include <iterator>
#include <string>
#include <cmath>
#include <functional>
#ifndef VC_NATIVE
// verified text: the library's own serial configuration (gbs/execution.h, the branch used where no parallel STL exists)
#undef __cpp_lib_execution
#endif
#include <gbs/gbslib.h>
using V  = std::vector<double>;
using VU = std::vector<size_t>;
template<size_t d> using PT = std::array<double,d>;
template<size_t d> using PV = std::vector<std::array<double,d>>;
using P1 = PV<1>; using P2 = PV<2>; using P3 = PV<3>; using P4 = PV<4>;
#ifdef VC_NATIVE
#include <typeinfo>
#include <cstring>
#include <exception>
#include <tuple>
extern "C" void *vcn_alloc(size_t n) { return n ? ::operator new(n) : nullptr; }
extern "C" void vcn_free(void *p) { ::operator delete(p); }
inline char vcn_msg[512];
extern "C" const char *vcn_what() { return vcn_msg; }
template<class A> decltype(auto) vcn_arg(void *p) { if constexpr (std::is_pointer_v<A>) return static_cast<A>(p); else return (*static_cast<std::remove_reference_t<A>*>(p)); }
template<class R, class... A, size_t... I>
int vcn_go(R (*f)(A...), void **a, void *r, std::index_sequence<I...>)
{
    vcn_msg[0] = 0;
    try {
        if constexpr (std::is_void_v<R>) f(static_cast<A>(vcn_arg<A>(a[I]))...);
        else { *static_cast<R*>(r) = f(static_cast<A>(vcn_arg<A>(a[I]))...); }
        return 0;
    } catch (const std::exception &e) {
        strncpy(vcn_msg, typeid(e).name(), 255); strncat(vcn_msg, " ", 2); strncat(vcn_msg, e.what(), 200);
        return 1;
    } catch (...) { return 2; }
}
template<class R, class... A> int vcn_tramp(R (*f)(A...), void **a, void *r) { return vcn_go(f, a, r, std::index_sequence_for<A...>{}); }
#define VCT(name) extern "C" int t_##name(void **a, void *r) { return vcn_tramp(&name, a, r); }
#endif
