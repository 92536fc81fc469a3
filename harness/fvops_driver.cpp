// Replays behaviours of FiniteVolume.tla.
#include "fv.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"
#include "NeoFOAM/dsl/spatialOperator.hpp"
#include "NeoFOAM/dsl/temporalOperator.hpp"
namespace fvcc = nf::finiteVolume::cellCentred;
namespace dsl = nf::dsl;
#ifndef ELEM
#define ELEM nf::scalar
#endif
using T = ELEM;
using Vol = fvcc::VolumeField<T>;
using SVol = fvcc::VolumeField<nf::scalar>;
using Surf = fvcc::SurfaceField<T>;
using SSurf = fvcc::SurfaceField<nf::scalar>;
using LS = nf::la::LinearSystem<T, nf::localIdx>;
using Interp = fvcc::SurfaceInterpolation<T>;

static nf::Dictionary bcDict(const J& c)
{
    nf::Dictionary d;
    std::string t = c["t"].str();
    d.insert("type", t);
    if (t == "fixedValue" || t == "fixedGradient") d.insert(t, val<T>(c["v"].num()));
    return d;
}
static nf::Dictionary dict(const std::map<std::string, std::string>& m)
{
    nf::Dictionary d;
    for (auto& [k, v] : m) d.insert(k, v);
    return d;
}
static nf::TokenList tokens(std::initializer_list<std::string> l)
{
    nf::TokenList t;
    for (auto& s : l) t.insert(s);
    return t;
}
struct S : Session
{
    std::unique_ptr<nf::Database> db;
    nf::UnstructuredMesh* mesh = nullptr;
    Vol* phi = nullptr;
    std::unique_ptr<SVol> src;
    std::unique_ptr<SSurf> flux, gam;
    std::unique_ptr<nf::Field<T>> acc;
    std::unique_ptr<LS> ls;
    std::unique_ptr<nf::Field<nf::scalar>> coef; // what the coefficient of the current operator refers to
    std::map<std::string, nf::Input> config;     // never renewed: reading must not use it up
    nf::Dictionary schemes;
    long long dn = 1;
    J accScale, out = J::arr();

    S()
    {
        nf::Dictionary divs, laps;
        divs.insert("div(flux,phi)", tokens({"Gauss", "linear"}));
        divs.insert("div(wind,phi)", tokens({"Gauss", "upwind"}));
        laps.insert("laplacian(gam,phi)", tokens({"Gauss", "linear", "uncorrected"}));
        schemes.insert("divSchemes", divs);
        schemes.insert("laplacianSchemes", laps);
        config.emplace("linear tokens", nf::Input(tokens({"Gauss", "linear"})));
        config.emplace("upwind tokens", nf::Input(tokens({"Gauss", "upwind"})));
        config.emplace("laplacian tokens", nf::Input(tokens({"Gauss", "linear", "uncorrected"})));
        config.emplace("linear dict", nf::Input(dict({{"DivOperator", "Gauss"}, {"surfaceInterpolation", "linear"}})));
        config.emplace("upwind dict", nf::Input(dict({{"DivOperator", "Gauss"}, {"surfaceInterpolation", "upwind"}})));
        config.emplace("laplacian dict", nf::Input(dict({{"LaplacianOperator", "Gauss"}, {"surfaceInterpolation", "linear"}, {"faceNormalGradient", "uncorrected"}})));
        config.emplace("schemes", nf::Input(schemes));
    }
    template<class E> nf::Field<E> field(const J& l)
    {
        auto v = vecOf<E>(l);
        if (v.empty()) return nf::Field<E>(mesh->exec(), 0);
        return nf::Field<E>(mesh->exec(), v);
    }
    void setPhi(const J& v)
    {
        phi->internalField() = field<T>(v);
        phi->correctBoundaryConditions();
    }
    template<class F> F* named(const std::string& n)
    {
        auto* f = new F(mesh->exec(), n, *mesh, fvcc::createCalculatedBCs<std::conditional_t<std::is_same_v<F, SVol>, fvcc::VolumeBoundary<nf::scalar>, fvcc::SurfaceBoundary<nf::scalar>>>(*mesh));
        return f;
    }
    const SSurf& fluxFor(const std::string& o) { flux->name = o == "upwind" ? "wind" : "flux"; return *flux; }
    nf::Input fresh(const std::string& o, const std::string& route) { return config.at(o + (route == "dict" ? " dict" : " tokens")); }
    // the operator o made the way `route` says
    fvcc::DivOperator<T> divOp(dsl::Operator::Type t, const std::string& o, const std::string& route)
    {
        if (route == "tokens" || route == "dict") return fvcc::DivOperator<T>(t, fluxFor(o), *phi, fresh(o, route));
        fvcc::DivOperator<T> d(t, fluxFor(o), *phi);
        if (route == "build") d.build(config.at(o + " tokens"));
        if (route == "schemes") d.build(config.at("schemes"));
        return d;
    }
    fvcc::LaplacianOperator<T> lapOp(dsl::Operator::Type t, const std::string& route)
    {
        if (route == "tokens" || route == "dict") return fvcc::LaplacianOperator<T>(t, *gam, *phi, fresh("laplacian", route));
        fvcc::LaplacianOperator<T> d(t, *gam, *phi);
        if (route == "build") d.build(config.at("laplacian tokens"));
        if (route == "schemes") d.build(config.at("schemes"));
        return d;
    }
    dsl::Coeff coefficient(const J& n, const J& f)
    {
        if (f.size() == 0) return dsl::Coeff(double(n.num()));
        coef = std::make_unique<nf::Field<nf::scalar>>(field<nf::scalar>(f));
        return dsl::Coeff(double(n.num()), *coef);
    }
    template<class Op> void runEx(Op op, const std::string& route, const dsl::Coeff& k)
    {
        if (route == "model")
        {
            dsl::SpatialOperator<T> m(std::move(op));
            m.build(config.at("schemes"));
            dsl::SpatialOperator<T> c(k * m);
            c.explicitOperation(*acc);
            return;
        }
        op.getCoefficient() *= k;
        op.explicitOperation(*acc);
    }
    template<class Op> void runIm(Op op, const std::string& route, const dsl::Coeff& k)
    {
        if (route == "model")
        {
            dsl::SpatialOperator<T> m(std::move(op));
            m.build(config.at("schemes"));
            dsl::SpatialOperator<T> c(k * m);
            c.implicitOperation(*ls);
            return;
        }
        op.getCoefficient() *= k;
        op.implicitOperation(*ls);
    }
    Interp interpolation(const std::string& scheme, const std::string& route)
    {
        const auto& ex = mesh->exec();
        nf::Input in = route == "dict" ? nf::Input(dict({{"surfaceInterpolation", scheme}})) : nf::Input(tokens({scheme}));
        if (route == "build")
        {
            auto kernel = fvcc::SurfaceInterpolationFactory<T>::create(ex, *mesh, in);
            return Interp(ex, *mesh, kernel->clone());
        }
        Interp i(ex, *mesh, in);
        if (route == "schemes") return Interp(i);
        return i;
    }
    template<class F> F sentinel(const std::string& n)
    {
        F f(mesh->exec(), n, *mesh, fvcc::createCalculatedBCs<std::conditional_t<std::is_same_v<F, SSurf>, fvcc::SurfaceBoundary<nf::scalar>, fvcc::SurfaceBoundary<T>>>(*mesh));
        using E = std::conditional_t<std::is_same_v<F, SSurf>, nf::scalar, T>;
        auto v = f.internalField().view();
        nf::parallelFor(f.exec(), {0, v.size()}, [=](const std::size_t i) { v[i] = val<E>(7777); });
        return f;
    }
    J step(const J& op) override
    {
        schedule(op["s"].num());
        out = J::arr();
        const std::string o = op["n"].str(), k = op["k"].str();
        const J& a = op["a"];
        auto Ex = dsl::Operator::Type::Explicit;
        auto Im = dsl::Operator::Type::Implicit;
        if (o == "new")
        {
            phi = nullptr;
            ls.reset();
            db = std::make_unique<nf::Database>();
            mesh = &meshOf(a[0].str(), a[1].num());
            const J& c = a[2];
            std::vector<fvcc::VolumeBoundary<T>> bc;
            for (std::size_t p = 0; p < c["bc"].size(); p++) bc.push_back(fvcc::VolumeBoundary<T>(*mesh, bcDict(c["bc"][p]), p));
            Vol v(mesh->exec(), "phi", *mesh, bc);
            auto& fields = fvcc::FieldCollection::instance(*db, "fields");
            v.internalField() = field<T>(c["v"]);
            auto w = v.boundaryField().value().view();
            auto off = mesh->boundaryMesh().offset();
            for (std::size_t p = 0; p < c["bc"].size(); p++)
            {
                T x = val<T>(c["bc"][p]["v"].num());
                if (off[p + 1] > off[p]) nf::parallelFor(mesh->exec(), {std::size_t(off[p]), std::size_t(off[p + 1])}, [=](const std::size_t i) { w[i] = x; });
            }
            v.correctBoundaryConditions();
            phi = &fields.registerField<Vol>(fvcc::CreateFromExistingField<Vol> {.name = "phi", .field = v, .timeIndex = 1, .iterationIndex = 1, .subCycleIndex = 1});
            fvcc::oldTime(*phi).internalField() = field<T>(c["old"]);
            flux.reset(named<SSurf>("flux"));
            gam.reset(named<SSurf>("gam"));
            src.reset(named<SVol>("src"));
            flux->internalField() = field<nf::scalar>(c["flux"]);
            gam->internalField() = field<nf::scalar>(c["gam"]);
            src->internalField() = field<nf::scalar>(c["src"]);
            acc = std::make_unique<nf::Field<T>>(mesh->exec(), mesh->nCells(), nf::zero<T>());
            ls = std::make_unique<LS>(nf::la::createEmptyLinearSystem<T, nf::localIdx, fvcc::SparsityPattern>(*fvcc::SparsityPattern::readOrCreate(*mesh)));
            dn = a[3].num();
            accScale = a[4];
        }
        else if (o == "set")
        {
            if (k == "v") setPhi(a[0]);
            else if (k == "old") fvcc::oldTime(*phi).internalField() = field<T>(a[0]);
            else if (k == "flux") flux->internalField() = field<nf::scalar>(a[0]);
            else if (k == "gam") gam->internalField() = field<nf::scalar>(a[0]);
            else src->internalField() = field<nf::scalar>(a[0]);
        }
        else if (o == "reset")
        {
            nf::fill(*acc, nf::zero<T>());
            ls->reset();
        }
        else if (o == "explicit" || o == "implicit")
        {
            std::string route = a[0].str();
            auto c = coefficient(a[1], a[2]);
            bool ex = o == "explicit";
            auto t = ex ? Ex : Im;
            auto run = [&](auto op) { if (ex) runEx(std::move(op), route, c); else runIm(std::move(op), route, c); };
            if (k == "linear" || k == "upwind") run(divOp(t, k, route));
            else if (k == "laplacian") run(lapOp(t, route));
            else if (k == "source") run(fvcc::SourceTerm<T>(t, *src, *phi));
            else if (k == "integrate")
            {
#ifdef SCALAR
                runEx(fvcc::SurfaceIntegrate<T>(*flux), route, c);
#else
                Surf f(mesh->exec(), "f", *mesh, fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(*mesh));
                auto w = f.internalField().view();
                auto x = flux->internalField().view();
                nf::parallelFor(f.exec(), {0, w.size()}, [=](const std::size_t i) { w[i] = x[i] * val<T>(1); });
                runEx(fvcc::SurfaceIntegrate<T>(f), route, c);
#endif
            }
            else if (k == "ddt")
            {
                fvcc::DdtOperator<T> d(t, *phi);
                if (route == "model")
                {
                    dsl::TemporalOperator<T> m(std::move(d));
                    m.build(config.at("schemes"));
                    dsl::TemporalOperator<T> r(c * m);
                    if (ex) r.explicitOperation(*acc, 3.0, 0.5);
                    else r.implicitOperation(*ls, 3.0, 0.5);
                }
                else
                {
                    d.getCoefficient() *= c;
                    if (ex) d.explicitOperation(*acc, 3.0, 0.5);
                    else d.implicitOperation(*ls, 3.0, 0.5);
                }
            }
            else std::abort();
        }
        else if (o == "interpolate")
        {
            auto i = interpolation(k, a[0].str());
            if (a[0].str() == "model")
            {
                auto d = sentinel<Surf>("dst");
                if (k == "linear" && op["s"].num() % 2) i.interpolate(*phi, d);
                else i.interpolate(*flux, *phi, d);
                out = scaledList(d.internalField(), a[1]);
            }
            else if (k == "linear" && op["s"].num() % 2) out = scaledList(i.interpolate(*phi).internalField(), a[1]);
            else
            {
#ifdef SCALAR
                out = scaledList(i.interpolate(*flux, *phi).internalField(), a[1]);
#else
                auto d = sentinel<Surf>("dst");
                i.interpolate(*flux, *phi, d);
                out = scaledList(d.internalField(), a[1]);
#endif
            }
        }
        else if (o == "normal")
        {
            nf::Input in = a[0].str() == "dict" ? nf::Input(dict({{"faceNormalGradient", "uncorrected"}})) : nf::Input(tokens({"uncorrected"}));
            fvcc::FaceNormalGradient<T> g(mesh->exec(), *mesh, in), h(g);
            if (a[0].str() == "model")
            {
                auto d = sentinel<Surf>("dst");
                h.faceNormalGrad(*phi, d);
                out = scaledList(d.internalField(), a[1]);
            }
            else out = scaledList(g.faceNormalGrad(*phi).internalField(), a[1]);
        }
        else if (o == "weights")
        {
            auto i = interpolation("linear", "tokens");
            auto d = sentinel<SSurf>("w");
            if (op["s"].num() % 2) i.weight(*phi, d);
            else i.weight(*flux, *phi, d);
            out = scaledList(d.internalField(), a[1]);
        }
        else if (o == "coeffs")
        {
            fvcc::FaceNormalGradient<T> g(mesh->exec(), *mesh, nf::Input(tokens({"uncorrected"})));
            out = scaledList(g.deltaCoeffs().internalField(), a[1]);
        }
        else if (o == "noflux")
        {
            auto i = interpolation("upwind", "tokens");
            return ret(dying([&] {
                if (k == "weight") auto w = i.weight(*phi);
                else auto d = i.interpolate(*phi);
            }), okv());
        }
        else if (o == "grad")
        {
#ifdef SCALAR
                fvcc::GaussGreenGrad g(mesh->exec(), *mesh);
                if (a[0].str() == "model")
                {
                    fvcc::VolumeField<nf::Vector> r(mesh->exec(), "g", *mesh, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<nf::Vector>>(*mesh));
                    nf::fill(r.internalField(), nf::zero<nf::Vector>());
                    g.grad(*phi, r);
                    out = scaledVecs(r.internalField(), a[1]);
                }
                else out = scaledVecs(g.grad(*phi).internalField(), a[1]);
#endif
        }
        else if (o == "field")
        {
            std::string route = a[0].str();
            Vol r(mesh->exec(), "r", *mesh, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(*mesh));
            nf::fill(r.internalField(), nf::zero<T>());
            if (k == "laplacian")
            {
                auto l = lapOp(Ex, route == "model" ? "build" : route);
                l.laplacian(r);
                out = scaledList(r.internalField(), a[1]);
            }
            else if (route == "schemes" || route == "tokens")
            {
                auto d = divOp(Ex, k, route);
                if (route == "schemes") d.div(r);
                else d.div(r.internalField());
                out = scaledList(r.internalField(), a[1]);
            }
            else
            {
                auto f = fvcc::DivOperatorFactory<T>::create(mesh->exec(), *mesh, fresh(k, route));
                out = scaledList(f->clone()->div(*flux, *phi, dsl::Coeff(1.0)).internalField(), a[1]);
            }
        }
        else if (o == "courant")
        {
            out.add(scaled(fvcc::computeCoNum(*flux, double(a[0].num())), a[1][0].num()));
        }
        else std::abort();
        return retOk();
    }
    // the matrix of a vector field has the same coefficient for each component
    J coefficientOf(nf::scalar x) { return scaled(x, dn); }
    J coefficientOf(nf::Vector x) { return x[0] == x[1] && x[1] == x[2] ? scaled(x[0], dn) : scaled(x, dn); }
    J obs() override
    {
        J o = J::obj(), m = J::arr(), r = J::arr();
        if (ls)
        {
            auto h = ls->copyToHost();
            auto [A, b] = h.view();
            std::size_t n = mesh->nCells();
            J none = J::arr();
            std::vector<std::vector<T>> dense(n, std::vector<T>(n, nf::zero<T>()));
            std::string bad;
            for (std::size_t i = 0; i < n; i++)
                for (auto e = A.rowOffs[i]; e < A.rowOffs[i + 1]; e++)
                {
                    if (std::size_t(A.colIdxs[e]) >= n) bad = "column outside";
                    else dense[i][std::size_t(A.colIdxs[e])] += A.values[e];
                }
            for (std::size_t i = 0; i < n; i++)
            {
                J row = J::arr();
                for (auto& x : dense[i])
                {
                    row.add(coefficientOf(x));
                }
                m.add(row);
            }
            for (std::size_t i = 0; i < n; i++) r.add(scaled(b[i], dn));
            if (!bad.empty()) m = J(bad);
        }
        o.set("acc", acc ? scaledList(*acc, accScale) : J::arr()).set("mat", m).set("rhs", r).set("out", out);
        return o;
    }
};
int main(int, char** argv)
{
    shim::control.splitMemory = true;
    meshRecords = J::parse(argv[1]);
    return runDriver([] { return std::make_unique<S>(); });
}
