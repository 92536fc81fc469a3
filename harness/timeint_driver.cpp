// Replays behaviours of TimeIntegration.tla.  The linear solver is a stand-in that answers what the
// behaviour says and records what it was handed.
#include "fv.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#ifdef RUNGE_KUTTA
#include "NeoFOAM/timeIntegration/rungeKutta.hpp"
static const std::string FORWARD = "Runge-Kutta";
#else
static const std::string FORWARD = "forwardEuler";
#endif
namespace fvcc = nf::finiteVolume::cellCentred;
namespace dsl = nf::dsl;
using T = nf::scalar;
using Vol = fvcc::VolumeField<T>;
using Surf = fvcc::SurfaceField<T>;
using LS = nf::la::LinearSystem<T, nf::localIdx>;
using Expr = dsl::Expression<T>;

struct Answer
{
    std::vector<T> x;
    long long scale = 1;
    int calls = 0;
    J A, b;
    std::string wrong;
};
inline Answer answer;
class Told : public nf::la::SolverFactory::Register<Told>
{
    using Base = nf::la::SolverFactory::Register<Told>;

public:

    Told(const nf::Executor& exec, const nf::Dictionary& dict) : Base(exec)
    {
        if (dict.get<int>("maxIters") != 17) answer.wrong = "not the dictionary of the solver";
    }
    static std::string name() { return "Told"; }
    static std::string doc() { return "none"; }
    static std::string schema() { return "none"; }
    std::unique_ptr<nf::la::SolverFactory> clone() const override { return std::make_unique<Told>(*this); }
    void solve(const LS& ls, nf::Field<T>& x) const override
    {
        answer.calls++;
        if (nameOf(exec_) != nameOf(x.exec()) || nameOf(ls.exec()) != nameOf(x.exec())) answer.wrong = "executors differ";
        auto h = ls.copyToHost();
        auto [A, b] = h.view();
        std::size_t n = x.size();
        std::vector<std::vector<T>> dense(n, std::vector<T>(n, 0.0));
        for (std::size_t i = 0; i < n; i++)
            for (auto e = A.rowOffs[i]; e < A.rowOffs[i + 1]; e++) dense[i][std::size_t(A.colIdxs[e])] += A.values[e];
        answer.A = J::arr();
        answer.b = J::arr();
        for (std::size_t i = 0; i < n; i++)
        {
            J row = J::arr();
            for (auto v : dense[i]) row.add(scaled(v, answer.scale));
            answer.A.add(row);
            answer.b.add(scaled(b[i], answer.scale));
        }
        x = nf::Field<T>(x.exec(), answer.x);
    }
};
static nf::Dictionary bcDict(const J& c)
{
    nf::Dictionary d;
    std::string t = c["t"].str();
    d.insert("type", t);
    if (t == "fixedValue" || t == "fixedGradient") d.insert(t, T(c["v"].num()));
    return d;
}
static nf::TokenList tokens(std::initializer_list<std::string> l)
{
    nf::TokenList t;
    for (auto& s : l) t.insert(s);
    return t;
}
struct S : Session
{
    std::unique_ptr<nf::Database> db;
    nf::UnstructuredMesh* mesh = nullptr;
    Vol* phi = nullptr;
    std::unique_ptr<Vol> src;
    std::unique_ptr<Surf> flux, wind, gam;
    std::unique_ptr<Expr> eq;
    std::map<std::string, nf::Dictionary> schemes; // by integrator; never renewed
    nf::Dictionary solution;
    J out = J::arr();
    std::map<std::string, std::unique_ptr<nf::timeIntegration::TimeIntegration<Vol>>> kept;
    double time = 3.0;
    S()
    {
        nf::Dictionary divs, laps;
        divs.insert("div(flux,phi)", tokens({"Gauss", "linear"}));
        divs.insert("div(wind,phi)", tokens({"Gauss", "upwind"}));
        laps.insert("laplacian(gam,phi)", tokens({"Gauss", "linear", "uncorrected"}));
        for (std::string t : {"forwardEuler", "backwardEuler", "no such integrator", "", "Runge-Kutta", "method", "two stages", "no method"})
        {
            nf::Dictionary s, ddt;
            bool rk = t == "Runge-Kutta" || t == "method" || t == "two stages" || t == "no method";
            if (!t.empty()) ddt.insert("type", rk ? std::string("Runge-Kutta") : t);
            if (rk && t != "no method")
                ddt.insert("Runge-Kutta-Method", std::string(t == "method" ? "no such method" : t == "two stages" ? "Heun" : "Forward-Euler"));
            s.insert("ddtSchemes", ddt);
            s.insert("divSchemes", divs);
            s.insert("laplacianSchemes", laps);
            schemes.emplace(t, s);
        }
        solution.insert("solver", std::string("Told"));
        solution.insert("maxIters", 17);
    }
    nf::Field<T> field(const J& l) { return nf::Field<T>(mesh->exec(), vecOf<T>(l)); }
    template<class F> F* named(const std::string& n)
    {
        return new F(mesh->exec(), n, *mesh, fvcc::createCalculatedBCs<std::conditional_t<std::is_same_v<F, Vol>, fvcc::VolumeBoundary<T>, fvcc::SurfaceBoundary<T>>>(*mesh));
    }
    void setFlux(const J& v)
    {
        flux->internalField() = field(v);
        wind->internalField() = field(v);
    }
    J step(const J& op) override
    {
        schedule(op["s"].num());
        out = J::arr();
        const std::string o = op["n"].str(), k = op["k"].str();
        const J& a = op["a"];
        auto Ex = dsl::Operator::Type::Explicit;
        if (o == "new")
        {
            eq.reset();
            phi = nullptr;
            db = std::make_unique<nf::Database>();
            mesh = &meshOf(a[0].str(), a[1].num());
            const J& c = a[2];
            std::vector<fvcc::VolumeBoundary<T>> bc;
            for (std::size_t p = 0; p < c["bc"].size(); p++) bc.push_back(fvcc::VolumeBoundary<T>(*mesh, bcDict(c["bc"][p]), p));
            Vol v(mesh->exec(), "phi", *mesh, bc);
            v.internalField() = field(c["v"]);
            v.correctBoundaryConditions();
            auto& fields = fvcc::FieldCollection::instance(*db, "fields");
            phi = &fields.registerField<Vol>(fvcc::CreateFromExistingField<Vol> {.name = "phi", .field = v, .timeIndex = 1, .iterationIndex = 1, .subCycleIndex = 1});
            flux.reset(named<Surf>("flux"));
            wind.reset(named<Surf>("wind"));
            gam.reset(named<Surf>("gam"));
            src.reset(named<Vol>("src"));
            setFlux(c["flux"]);
            gam->internalField() = field(c["gam"]);
            src->internalField() = field(c["src"]);
            eq = std::make_unique<Expr>(mesh->exec());
        }
        else if (o == "set")
        {
            if (k == "v")
            {
                phi->internalField() = field(a[0]);
                phi->correctBoundaryConditions();
            }
            else if (k == "flux") setFlux(a[0]);
            else if (k == "gam") gam->internalField() = field(a[0]);
            else src->internalField() = field(a[0]);
        }
        else if (o == "clear") eq = std::make_unique<Expr>(mesh->exec());
        else if (o == "term")
        {
            long long n = a[1].num();
            auto put = [&](auto term) {
                if constexpr (std::is_same_v<decltype(term), dsl::TemporalOperator<T>>)
                {
                    if (n == 1) eq->addOperator(term);
                    else eq->addOperator(nf::scalar(n) * term);
                }
                else
                {
                    Expr r = n == -1 ? *eq - term : n == 1 ? *eq + term : *eq + nf::scalar(n) * term;
                    eq = std::make_unique<Expr>(r);
                }
            };
            if (a[0].str() == "imp")
            {
                if (k == "ddt") put(dsl::imp::ddt(*phi));
                else if (k == "upwind") put(dsl::imp::div(*wind, *phi));
                else if (k == "laplacian") put(dsl::imp::laplacian(*gam, *phi));
                else put(dsl::imp::source(*src, *phi));
            }
            else
            {
                if (k == "linear") put(dsl::exp::div(*flux, *phi));
                else if (k == "upwind") put(dsl::exp::div(*wind, *phi));
                else if (k == "laplacian") put(dsl::SpatialOperator<T>(fvcc::LaplacianOperator<T>(Ex, *gam, *phi)));
                else if (k == "integrate") put(dsl::exp::div(*flux));
                else put(dsl::exp::source(*src, *phi));
            }
        }
        else if (o == "forward" || o == "backward")
        {
            const std::string type = o == "forward" ? FORWARD : "backwardEuler";
            double dt = double(a[0][0].num()) / double(a[0][1].num());
            answer = Answer {};
            if (o == "backward")
            {
                answer.scale = a[1].num();
                answer.x = vecOf<T>(a[2]);
            }
            using Integrator = nf::timeIntegration::TimeIntegration<Vol>;
            auto& sch = schemes.at(type);
            if (k == "solve") dsl::solve(*eq, *phi, time, dt, sch, solution);
            else
            {
                eq->build(sch);
                if (k == "kept" || k == "kept again" || k == "copy of kept")
                {
                    auto& it = kept[type];
                    if (!it) it = std::make_unique<Integrator>(sch.subDict("ddtSchemes"), solution);
                    if (k != "copy of kept") it->solve(*eq, *phi, time, dt);
                    else Integrator(*it).solve(*eq, *phi, time, dt);
                }
                else
                {
                    Integrator in(sch.subDict("ddtSchemes"), solution);
                    if (k == "object") in.solve(*eq, *phi, time, dt);
                    else Integrator(in).solve(*eq, *phi, time, dt);
                }
            }
            time += dt;
            if (o == "forward")
            {
                out = J::obj();
                out.set("x", answer.calls ? J(std::string("a linear solver was called")) : scaledList(phi->internalField(), a[1]));
                if (a[2].size() > 0)
                {
                    phi->internalField() = field(a[2]);
                    phi->correctBoundaryConditions();
                    fvcc::oldTime(*phi).internalField() = field(a[2]);
                }
            }
            else seen();
        }
        else if (o == "steady")
        {
            answer = Answer {};
            answer.scale = a[0].num();
            answer.x = vecOf<T>(a[1]);
            dsl::solve(*eq, *phi, time, 0.5, schemes.at(FORWARD), solution);
            seen();
            phi->correctBoundaryConditions(); // left to the caller
        }
        else if (o == "stops")
        {
            return ret(dying([&] {
                answer = Answer {};
                answer.x = vecOf<T>(listOf(phi->internalField()));
                nf::Dictionary sol = solution;
                if (k == "solver") sol.get<std::string>("solver") = "no such solver";
                if (k == "no solver") sol.remove("solver");
                dsl::solve(*eq, *phi, 3.0, 0.5, schemes.at(k == "integrator" ? "no such integrator" : k == "no type" ? "" : k == "method" || k == "two stages" || k == "no method" ? k : FORWARD), sol);
            }), okv());
        }
        else std::abort();
        return retOk();
    }
    void seen()
    {
        out = J::obj();
        if (answer.calls != 1) answer.wrong = "the linear solver was called " + std::to_string(answer.calls) + " times";
        if (answer.wrong.empty()) out.set("A", answer.A).set("b", answer.b);
        else out.set("A", J(answer.wrong));
    }
    J obs() override
    {
        J o = J::obj(), old = J::arr();
        if (!phi) return o.set("v", J::arr()).set("b", J::arr()).set("old", old).set("out", out);
        auto& olds = fvcc::OldTimeCollection::instance(fvcc::FieldCollection::instance(*phi));
        if (olds.findNextTime(phi->key) != "") old = listOf(fvcc::oldTime(*phi).internalField());
        return o.set("v", listOf(phi->internalField())).set("b", listOf(phi->boundaryField().value())).set("old", old).set("out", out);
    }
};
int main(int, char** argv)
{
    shim::control.splitMemory = true;
    meshRecords = J::parse(argv[1]);
    return runDriver([] { return std::make_unique<S>(); });
}
