#pragma once
#include <sundials/sundials_nvector.h>
namespace sundials::kokkos
{
template<class ExecutionSpace = Kokkos::DefaultExecutionSpace>
class Vector;
template<class VectorType>
VectorType* GetVec(N_Vector v) { return static_cast<VectorType*>(v->content); }
template<class ExecutionSpace>
class Vector
{
public:

    using exec_space = ExecutionSpace;
    using view_type = Kokkos::View<sunrealtype*, typename ExecutionSpace::memory_space>;
    using size_type = std::size_t;

private:

    struct Object : _generic_N_Vector
    {
        std::unique_ptr<Vector> own; // of a clone
        Vector& it() const { return *static_cast<Vector*>(content); }
        N_Vector clone() const override
        {
            auto v = std::make_unique<Vector>(it().Length(), ctx);
            Object* o = new Object;
            o->content = v.get();
            o->ctx = ctx;
            o->own = std::move(v);
            return o;
        }
        void linearSum(double a, N_Vector x, double b, N_Vector y) override
        {
            auto vx = GetVec<Vector>(x)->View(), vy = GetVec<Vector>(y)->View(), vz = it().View();
            Kokkos::parallel_for(
                "linearSum", Kokkos::RangePolicy<ExecutionSpace>(0, it().Length()), KOKKOS_LAMBDA(const std::size_t i) { vz(i) = a * vx(i) + b * vy(i); });
        }
        sunindextype length() const override { return static_cast<sunindextype>(it().Length()); }
        sunrealtype* data() override { return it().View().data(); }
    };
    view_type view_ {};
    std::size_t length_ = 0;
    std::unique_ptr<Object> object_;
    void fit(SUNContext ctx)
    {
        object_ = std::make_unique<Object>();
        object_->content = this;
        object_->ctx = ctx;
    }

public:

    Vector() { fit(nullptr); }
    Vector(size_type length, SUNContext ctx) : view_("Vector", length), length_(length) { fit(ctx); }
    Vector(Vector&& o) noexcept : view_(std::move(o.view_)), length_(o.length_), object_(std::move(o.object_))
    {
        if (object_) object_->content = this;
    }
    Vector(const Vector& o) : view_("Vector", o.length_), length_(o.length_) { fit(o.object_ ? o.object_->ctx : nullptr); }
    Vector& operator=(Vector&& o) noexcept
    {
        view_ = std::move(o.view_);
        length_ = o.length_;
        object_ = std::move(o.object_);
        if (object_) object_->content = this;
        return *this;
    }
    Vector& operator=(const Vector&) = delete;
    view_type View() { return view_; }
    size_type Length() const { return length_; }
    operator N_Vector() { return object_.get(); }
    operator N_Vector() const { return object_.get(); }
};
}
