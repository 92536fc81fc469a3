// Stand-in for the parts of SUNDIALS the library uses: vectors of values in the memory of an
// execution space, and explicit one-stage integration that keeps its own state and time.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstdint>
#include <memory>
using sunrealtype = double;
using sunindextype = std::int64_t;
struct SunContextData
{
    int alive = 1;
};
using SUNContext = SunContextData*;
using SUNComm = int;
constexpr SUNComm SUN_COMM_NULL = 0;
inline int SUNContext_Create(SUNComm, SUNContext* c)
{
    *c = new SunContextData;
    return 0;
}
inline int SUNContext_Free(SUNContext* c)
{
    if (c && *c)
    {
        delete *c;
        *c = nullptr;
    }
    return 0;
}
struct _generic_N_Vector;
using N_Vector = _generic_N_Vector*;
struct _generic_N_Vector
{
    void* content = nullptr;
    SUNContext ctx = nullptr;
    virtual ~_generic_N_Vector() = default;
    virtual N_Vector clone() const = 0;                                  // same size, values undefined
    virtual void linearSum(double a, N_Vector x, double b, N_Vector y) = 0; // this = a x + b y
    virtual sunindextype length() const = 0;
    virtual sunrealtype* data() = 0;
};
inline sunrealtype* N_VGetArrayPointer(N_Vector v) { return v->data(); }
inline sunindextype N_VGetLength(N_Vector v) { return v->length(); }
inline N_Vector N_VClone(N_Vector v) { return v->clone(); }
inline void N_VDestroy(N_Vector v) { delete v; }
