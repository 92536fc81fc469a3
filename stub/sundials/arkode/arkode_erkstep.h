#pragma once
#include <sundials/sundials_nvector.h>
enum ARKODE_ERKTableID { ARKODE_ERK_NONE = -1, ARKODE_HEUN_EULER_2_1_2, ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2, ARKODE_FORWARD_EULER_1_1 };
constexpr int ARK_NORMAL = 1, ARK_ONE_STEP = 2, ARK_SUCCESS = 0, ARK_MEM_NULL = -21, ARK_ILL_INPUT = -22, ARK_RHSFUNC_FAIL = -8;
using ARKRhsFn = int (*)(sunrealtype, N_Vector, N_Vector, void*);
struct ArkStandIn
{
    ARKRhsFn f;
    double t, h = 0;
    N_Vector yn, k;
    ARKODE_ERKTableID table = ARKODE_ERK_NONE;
    void* user = nullptr;
    SUNContext ctx;
};
inline void* ERKStepCreate(ARKRhsFn f, sunrealtype t0, N_Vector y0, SUNContext ctx)
{
    if (!f || !y0 || !ctx || !ctx->alive) return nullptr;
    auto* a = new ArkStandIn {f, t0, 0, N_VClone(y0), N_VClone(y0), ARKODE_ERK_NONE, nullptr, ctx};
    a->yn->linearSum(1, y0, 0, y0);
    return a;
}
inline int ERKStepSetTableNum(void* m, ARKODE_ERKTableID id)
{
    if (!m) return ARK_MEM_NULL;
    static_cast<ArkStandIn*>(m)->table = id;
    return ARK_SUCCESS;
}
// starts again from the given time and state
inline int ERKStepReset(void* m, sunrealtype t, N_Vector y)
{
    if (!m) return ARK_MEM_NULL;
    auto* a = static_cast<ArkStandIn*>(m);
    a->t = t;
    a->yn->linearSum(1, y, 0, y);
    return ARK_SUCCESS;
}
inline int ERKStepReInit(void* m, ARKRhsFn f, sunrealtype t, N_Vector y)
{
    if (!m) return ARK_MEM_NULL;
    static_cast<ArkStandIn*>(m)->f = f;
    return ERKStepReset(m, t, y);
}
inline int ARKodeReset(void* m, sunrealtype t, N_Vector y) { return ERKStepReset(m, t, y); }
inline int ARKodeSetUserData(void* m, void* u)
{
    if (!m) return ARK_MEM_NULL;
    static_cast<ArkStandIn*>(m)->user = u;
    return ARK_SUCCESS;
}
inline int ARKodeSStolerances(void* m, sunrealtype, sunrealtype) { return m ? ARK_SUCCESS : ARK_MEM_NULL; }
inline int ARKodeSetFixedStep(void* m, sunrealtype h)
{
    if (!m) return ARK_MEM_NULL;
    static_cast<ArkStandIn*>(m)->h = h;
    return ARK_SUCCESS;
}
inline int ARKodeGetCurrentTime(void* m, sunrealtype* t)
{
    if (!m) return ARK_MEM_NULL;
    *t = static_cast<ArkStandIn*>(m)->t;
    return ARK_SUCCESS;
}
inline int ARKodeEvolve(void* m, sunrealtype tout, N_Vector yout, sunrealtype* tret, int task)
{
    if (!m) return ARK_MEM_NULL;
    auto* a = static_cast<ArkStandIn*>(m);
    if (a->table != ARKODE_FORWARD_EULER_1_1 || a->h == 0) return ARK_ILL_INPUT;
    do {
        if (a->f(a->t, a->yn, a->k, a->user) != 0) return ARK_RHSFUNC_FAIL;
        yout->linearSum(1, a->yn, a->h, a->k);
        a->yn->linearSum(1, yout, 0, yout);
        a->t += a->h;
    } while (task == ARK_NORMAL && a->t < tout);
    *tret = a->t;
    return ARK_SUCCESS;
}
inline void ARKodeFree(void** m)
{
    if (!m || !*m) return;
    auto* a = static_cast<ArkStandIn*>(*m);
    N_VDestroy(a->yn);
    N_VDestroy(a->k);
    delete a;
    *m = nullptr;
}
