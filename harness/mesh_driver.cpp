// Replays behaviours of Mesh.tla.
#include "fv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
#ifndef FACTORIES_ONLY
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/basicGeometryScheme.hpp"
#endif
#include <algorithm>
namespace fvcc = nf::finiteVolume::cellCentred;

// lengths, areas and volumes of the code times u, 1, vs are the specification's
struct Units { long long u = 1, vs = 1; };

static J whole(const nf::UnstructuredMesh& m, Units u)
{
    J n = J::arr();
    n.add(m.nCells()).add(m.nInternalFaces()).add(m.nBoundaryFaces()).add(m.nBoundaries()).add(m.nFaces());
    J o = J::obj();
    o.set("nC", m.nCells()).set("own", listOf(m.faceOwner())).set("nei", listOf(m.faceNeighbour()));
    o.set("V", scaledList(m.cellVolumes(), one(u.vs))).set("C", scaledVecs(m.cellCentres(), one(u.u)));
    o.set("sf", scaledVecs(m.faceAreas(), one())).set("cf", scaledVecs(m.faceCentres(), one(u.u)));
    o.set("mag", scaledList(m.magFaceAreas(), one())).set("n", n);
    o.set("off", J::list(m.boundaryMesh().offset()));
    return o;
}
// a device view brought to the host
template<class V> auto host(const nf::Executor& ex, V v)
{
    using T = std::remove_cv_t<typename V::value_type>;
    std::vector<T> r(v.size());
    nf::Field<T> f(ex, v.size());
    auto w = f.view();
    nf::parallelFor(ex, {0, v.size()}, [w, v](const std::size_t i) { w[i] = v[i]; });
    auto h = f.copyToHost();
    for (std::size_t i = 0; i < r.size(); i++) r[i] = h.data()[i];
    return r;
}
struct B // the boundary mesh's data for a range of faces starting at lo
{
    std::vector<nf::label> fc;
    std::vector<nf::Vector> cf, cn, sf, nfv, delta;
    std::vector<double> mag, w, dc;
    J show(std::size_t lo, const J& sc, Units u) const
    {
        J o = J::obj(), a[8];
        for (auto& x : a) x = J::arr();
        for (std::size_t i = 0; i < fc.size(); i++) a[0].add(J(static_cast<long long>(fc[i])));
        for (auto& x : cf) a[1].add(scaled3(x, u.u));
        for (auto& x : sf) a[2].add(scaled3(x, 1));
        for (auto x : mag) a[3].add(scaled(x, 1));
        std::size_t ni = sc["mag"].size() - sc["bd"].size();
        for (std::size_t i = 0; i < nfv.size(); i++) a[4].add(scaled3(nfv[i], sc["mag"][ni + lo + i].num()));
        for (auto& x : delta) a[5].add(scaled3(x, u.u));
        for (std::size_t i = 0; i < dc.size(); i++) a[6].add(scaled(dc[i] / double(u.u), sc["bd"][lo + i].num()));
        for (auto x : w) a[7].add(scaled(x, 1));
        const char* names[] = {"fc", "cf", "sf", "mag", "nf", "delta", "dc", "w"};
        for (int k = 0; k < 8; k++) o.set(names[k], a[k]);
        return o;
    }
};
template<class T> std::vector<T> all(const nf::Field<T>& f)
{
    auto h = f.copyToHost();
    return std::vector<T>(h.data(), h.data() + h.size());
}

struct S : Session
{
    J out = J::arr();
    void show(const nf::Executor& ex, const nf::UnstructuredMesh& m, const J& sc, Units u, bool cn, bool points)
    {
        out = J::obj();
        J ps = J::arr();
        const auto& b = m.boundaryMesh();
        for (std::size_t p = 0; p + 1 < b.offset().size(); p++)
        {
            auto i = static_cast<nf::localIdx>(p);
            B d;
            d.fc = host(ex, b.faceCells(i));
            d.cf = host(ex, b.cf(i));
            d.cn = host(ex, b.cn(i));
            d.sf = host(ex, b.sf(i));
            d.nfv = host(ex, b.nf(i));
            d.delta = host(ex, b.delta(i));
            d.mag = host(ex, b.magSf(i));
            d.w = host(ex, b.weights(i));
            d.dc = host(ex, b.deltaCoeffs(i));
            ps.add(d.show(b.offset()[p], sc, u));
        }
        B d;
        d.fc = all(b.faceCells());
        d.cf = all(b.cf());
        d.sf = all(b.sf());
        d.nfv = all(b.nf());
        d.delta = all(b.delta());
        d.mag = all(b.magSf());
        d.w = all(b.weights());
        d.dc = all(b.deltaCoeffs());
        out.set("whole", whole(m, u)).set("patches", ps).set("all", d.show(0, sc, u));
        if (cn) out.set("cn", scaledVecs(b.cn(), one(u.u)));
        if (points) out.set("points", scaledVecs(m.points(), one(u.u)));
    }
    J step(const J& op) override
    {
        schedule(op["s"].num());
        const std::string o = op["n"].str();
        const J& a = op["a"];
        nf::Executor ex = execOf(a[0].str());
        if (o == "line")
        {
            long long n = a[1].num();
            auto m = nf::create1DUniformMesh(ex, static_cast<std::size_t>(n));
            if (!(m.exec() == ex)) return ret("other executor", okv());
            show(ex, m, a[2], {2 * n, n}, true, true);
            return retOk();
        }
        if (o == "square")
        {
            auto m = nf::createSingleCellMesh(ex);
            if (!(m.exec() == ex)) return ret("other executor", okv());
            show(ex, m, a[1], {2, 1}, false, false);
            return retOk();
        }
        auto& m = meshOf(a[0].str(), a[1].num());
        if (o == "given") show(ex, m, a[2], {}, true, false);
#ifndef FACTORIES_ONLY
        else if (o == "stencil")
        {
            auto seg = fvcc::CellToFaceStencil(m).computeStencil();
            auto off = all(seg.segments());
            auto v = all(seg.values());
            out = J::arr();
            for (std::size_t c = 0; c + 1 < off.size(); c++)
            {
                std::sort(v.begin() + long(off[c]), v.begin() + long(off[c + 1]));
                J l = J::arr();
                for (auto k = off[c]; k < off[c + 1]; k++) l.add(J(static_cast<long long>(v[k])));
                out.add(l);
            }
        }
        else if (o == "sparsity")
        {
            auto p = fvcc::SparsityPattern::readOrCreate(m);
            if (fvcc::SparsityPattern::readOrCreate(m) != p) return ret("not the same pattern", okv());
            fvcc::SparsityPattern own(m);
            long long k = a[2].num(); // 0: the mesh's pattern, 1: a new one, more: updated again
            auto& sp = k == 0 ? *p : own;
            for (long long i = 1; i < k; i++) sp.update();
            if (!(&sp.mesh() == &m)) return ret("other mesh", okv());
            auto ptr = all(sp.rowPtrs()), col = all(sp.colIdxs());
            auto oo = all(sp.ownerOffset()), no = all(sp.neighbourOffset()), dd = all(sp.diagOffset());
            auto own_ = all(m.faceOwner()), nei = all(m.faceNeighbour());
            std::vector<int> hits(col.size());
            auto at = [&](std::size_t row, std::size_t q) {
                std::size_t e = std::size_t(ptr[row]) + q;
                if (e >= col.size() || e >= std::size_t(ptr[row + 1])) return J("outside the row");
                hits[e]++;
                return J(static_cast<long long>(col[e]));
            };
            J x = J::arr(), y = J::arr(), z = J::arr();
            for (std::size_t f = 0; f < nei.size(); f++)
            {
                x.add(at(std::size_t(own_[f]), oo[f]));
                y.add(at(std::size_t(nei[f]), no[f]));
            }
            for (std::size_t c = 0; c < dd.size(); c++) z.add(at(c, dd[c]));
            out = J::obj();
            out.set("rows", static_cast<long long>(sp.rows())).set("nnz", static_cast<long long>(sp.nnz()));
            out.set("ptr", listOf(sp.rowPtrs())).set("atOwner", x).set("atNeighbour", y).set("atDiag", z).set("hits", J::list(hits));
        }
        else if (o == "geometry")
        {
            auto p = fvcc::GeometryScheme::readOrCreate(m);
            if (fvcc::GeometryScheme::readOrCreate(m) != p) return ret("not the same scheme", okv());
            long long k = a[2].num();
            fvcc::GeometryScheme own(m);
            fvcc::GeometryScheme explicitKernel(ex, m, std::make_unique<fvcc::BasicGeometryScheme>(m));
            auto& g = k == 0 ? *p : k == 1 ? own : explicitKernel;
            if (k == 3) g.update();
            out = J::obj();
            out.set("w", scaledList(g.weights().internalField(), a[3]["w"]));
            out.set("d", scaledList(g.deltaCoeffs().internalField(), a[3]["d"]));
            out.set("o", scaledList(g.nonOrthDeltaCoeffs().internalField(), a[3]["o"]));
        }
#endif
        else std::abort();
        return retOk();
    }
    J obs() override { return out; }
};

int main(int, char** argv)
{
    shim::control.splitMemory = true;
    meshRecords = J::parse(argv[1]);
    return runDriver([] { return std::make_unique<S>(); });
}
