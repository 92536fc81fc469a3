// Replays behaviours of Boundary.tla.
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
namespace fvcc = nf::finiteVolume::cellCentred;
#ifndef ELEM
#define ELEM nf::scalar
#endif
using T = ELEM;
using Vol = fvcc::VolumeField<T>;
using Surf = fvcc::SurfaceField<T>;
static std::vector<std::string> handles;

static nf::Dictionary bcDict(const J& c)
{
    nf::Dictionary d;
    std::string t = c["t"].str();
    d.insert("type", t);
    if (t == "fixedValue" || t == "fixedGradient") d.insert(t, val<T>(c["v"].num()));
    return d;
}
template<class B> std::vector<B> bcs(const nf::UnstructuredMesh& m, const J& l)
{
    std::vector<B> r;
    for (std::size_t p = 0; p < l.size(); p++) r.push_back(B(m, bcDict(l[p]), p));
    return r;
}
template<class F> void setAll(F& f, const std::vector<T>& v)
{
    f.internalField() = nf::Field<T>(f.exec(), v);
    if (v.empty()) f.internalField() = nf::Field<T>(f.exec(), 0);
}
template<class F> void sentinels(F& f)
{
    auto& b = f.boundaryField();
    auto v = b.value().view(), rv = b.refValue().view(), rg = b.refGrad().view();
    auto vf = b.valueFraction().view();
    nf::parallelFor(f.exec(), {0, v.size()}, [=](const std::size_t i) {
        long long k = static_cast<long long>(i) + 1;
        v[i] = val<T>(7000 + k);
        rv[i] = val<T>(8000 + k);
        rg[i] = val<T>(9000 + k);
        vf[i] = 100;
    });
}
struct S : Session
{
    std::map<std::string, std::unique_ptr<Vol>> vol;
    std::map<std::string, std::unique_ptr<Surf>> surf;
    J out = J::arr();
    J step(const J& op) override
    {
        schedule(op["s"].num());
        out = J::arr();
        const std::string o = op["n"].str(), h = op["h"].str();
        const J& a = op["a"];
        if (o == "new")
        {
            auto& m = meshOf(a[0].str(), a[1].num());
            vol[h].reset();
            surf[h].reset();
            auto v = vecOf<T>(a[4]);
            if (a[2].str() == "vol")
            {
                vol[h] = std::make_unique<Vol>(m.exec(), "f", m, bcs<fvcc::VolumeBoundary<T>>(m, a[3]));
                sentinels(*vol[h]);
                setAll(*vol[h], v);
            }
            else
            {
                surf[h] = std::make_unique<Surf>(m.exec(), "f", m, bcs<fvcc::SurfaceBoundary<T>>(m, a[3]));
                sentinels(*surf[h]);
                setAll(*surf[h], v);
            }
        }
        else if (o == "correct")
        {
            if (vol[h]) vol[h]->correctBoundaryConditions();
            else surf[h]->correctBoundaryConditions();
        }
        else if (o == "values")
        {
            if (vol[h]) setAll(*vol[h], vecOf<T>(a[0]));
            else setAll(*surf[h], vecOf<T>(a[0]));
        }
        else if (o == "write")
        {
            auto put = [&](auto& f) {
                auto w = f.boundaryField().value().view();
                std::size_t b = static_cast<std::size_t>(a[0].num());
                T c = val<T>(a[1].num());
                nf::parallelFor(f.exec(), {0, 1}, [=](const std::size_t) { w[b] = c; });
            };
            if (vol[h]) put(*vol[h]);
            else put(*surf[h]);
        }
        else if (o == "copy")
        {
            std::string g = a[0].str();
            std::unique_ptr<Vol> v;
            std::unique_ptr<Surf> s;
            if (a[1].str() == "parts")
            {
                v = std::make_unique<Vol>(vol[g]->exec(), "parts", vol[g]->mesh(), vol[g]->internalField(), vol[g]->boundaryConditions());
                sentinels(*v);
            }
            else if (vol[g]) v = std::make_unique<Vol>(*vol[g]);
            else s = std::make_unique<Surf>(*surf[g]);
            vol[h] = std::move(v);
            surf[h] = std::move(s);
        }
        else if (o == "patch")
        {
            auto& m = meshOf(a[0].str(), a[1].num());
            auto p = static_cast<std::size_t>(a[2].num());
            J c = J::obj();
            c.set("t", "calculated");
            fvcc::VolumeBoundary<T> b(m, bcDict(c), p);
            fvcc::SurfaceBoundary<T> q(m, bcDict(c), p);
            auto r = b.range();
            if (b.patchStart() != q.patchStart() || b.patchEnd() != q.patchEnd() || b.patchSize() != q.patchSize() || b.patchID() != q.patchID()
                || r.first != std::size_t(b.patchStart()) || r.second != std::size_t(b.patchEnd())) return ret("patches disagree", okv());
            out.add(static_cast<long long>(b.patchStart())).add(static_cast<long long>(b.patchEnd()));
            out.add(b.patchSize()).add(b.patchID());
        }
        else if (o == "bad")
        {
            auto& m = meshOf(a[0].str(), a[1].num());
            std::string what = a[2].str();
            bool v = a[3].str() == "vol";
            return ret(dying([&] {
                if (what == "size")
                {
                    nf::Field<T> f(m.exec(), m.nCells() + 1, nf::zero<T>());
                    nf::BoundaryFields<T> b(m.exec(), m.boundaryMesh().offset());
                    Vol x(m.exec(), "f", m, f, b, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(m));
                    return;
                }
                nf::Dictionary d;
                d.insert("type", std::string(what == "type" ? "noSuchCondition" : "fixedValue"));
                if (what == "other") d.insert("fixedValue", std::string("text"));
                if (v) fvcc::VolumeBoundary<T> b(m, d, 0);
                else fvcc::SurfaceBoundary<T> b(m, d, 0);
            }), okv());
        }
        else std::abort();
        return retOk();
    }
    template<class F> static J show(const F& f)
    {
        J o = J::obj();
        const auto& b = f.boundaryField();
        auto vf = listOf(b.valueFraction());
        J rv = listOf(b.refValue()), rg = listOf(b.refGrad());
        for (std::size_t i = 0; i < vf.size(); i++)
        {
            if (vf[i].num() == 1) rg.a[i] = J(0);
            if (vf[i].num() == 0) rv.a[i] = J(0);
        }
        o.set("x", nameOf(f.exec())).set("v", listOf(f.internalField())).set("val", scaledList(b.value(), one()));
        o.set("vf", vf).set("rv", rv).set("rg", rg);
        return o;
    }
    J obs() override
    {
        J o = J::obj();
        for (auto& h : handles)
        {
            J e = J::obj();
            o.set(h, vol[h] ? show(*vol[h]) : surf[h] ? show(*surf[h]) : e.set("x", ""));
        }
        J r = J::obj();
        r.set("fld", o).set("out", out);
        return r;
    }
};
int main(int argc, char** argv)
{
    shim::control.splitMemory = true;
    meshRecords = J::parse(argv[1]);
    for (int i = 2; i < argc; i++) handles.push_back(argv[i]);
    return runDriver([] { return std::make_unique<S>(); });
}
