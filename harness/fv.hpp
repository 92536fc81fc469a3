// Shared by the drivers of the finite-volume part: meshes given as records of integers (MeshBase.tla).
#pragma once
#include "kdriver.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "NeoFOAM/core/input.hpp"
#include <map>

inline nf::Vector vec3(const J& a) { return nf::Vector(double(a[0].num()), double(a[1].num()), double(a[2].num())); }
inline std::vector<nf::Vector> vecs(const J& a)
{
    std::vector<nf::Vector> r;
    for (std::size_t i = 0; i < a.size(); i++) r.push_back(vec3(a[i]));
    return r;
}
template<class T> std::vector<T> tail(const std::vector<T>& v, std::size_t n) { return std::vector<T>(v.begin() + long(n), v.end()); }

inline std::unique_ptr<nf::UnstructuredMesh> makeMesh(const nf::Executor& ex, const J& m)
{
    using D = double;
    auto own = vecOf<nf::label>(m["own"]), nei = vecOf<nf::label>(m["nei"]), bc = vecOf<nf::label>(m["bc"]);
    std::size_t ni = nei.size(), nb = bc.size();
    for (auto c : bc) own.push_back(c);
    auto sf = vecs(m["sf"]), cf = vecs(m["cf"]), C = vecs(m["C"]);
    auto mag = vecOf<D>(m["mag"]), V = vecOf<D>(m["V"]), bd = vecOf<D>(m["bd"]);
    std::vector<nf::Vector> bn, bdelta, bcn;
    std::vector<D> bw(nb, 1.0), bdc;
    for (std::size_t b = 0; b < nb; b++)
    {
        bn.push_back(sf[ni + b] * (1.0 / mag[ni + b]));
        bcn.push_back(C[std::size_t(bc[b])]);
        bdelta.push_back(cf[ni + b] - C[std::size_t(bc[b])]);
        bdc.push_back(1.0 / bd[b]);
    }
    std::vector<nf::localIdx> off;
    for (std::size_t i = 0; i < m["off"].size(); i++) off.push_back(nf::localIdx(m["off"][i].num()));
    nf::BoundaryMesh bm(
        ex, nf::labelField(ex, bc), nf::vectorField(ex, tail(cf, ni)), nf::vectorField(ex, bcn), nf::vectorField(ex, tail(sf, ni)),
        nf::scalarField(ex, tail(mag, ni)), nf::vectorField(ex, bn), nf::vectorField(ex, bdelta), nf::scalarField(ex, bw),
        nf::scalarField(ex, bdc), off
    );
    return std::make_unique<nf::UnstructuredMesh>(
        nf::vectorField(ex, cf), nf::scalarField(ex, V), nf::vectorField(ex, C), nf::vectorField(ex, sf), nf::vectorField(ex, cf),
        nf::scalarField(ex, mag), nf::labelField(ex, own), nf::labelField(ex, nei), C.size(), ni, nb, off.size() - 1, ni + nb, bm
    );
}
inline J meshRecords;
// the mesh of index i (from 1) on an executor
inline nf::UnstructuredMesh& meshOf(const std::string& x, long long i)
{
    static std::map<std::pair<std::string, long long>, std::unique_ptr<nf::UnstructuredMesh>> cache;
    auto& p = cache[{x, i}];
    if (!p) p = makeMesh(execOf(x), meshRecords[std::size_t(i - 1)]);
    return *p;
}
// value * scale as an integer, if it is one up to rounding
inline J scaled(double d, long long s)
{
    double x = d * double(s), r = std::round(x);
    if (std::isfinite(x) && std::fabs(x - r) < 1e-6 * (1 + 1e-4 * std::fabs(r))) return J(static_cast<long long>(r));
    char b[64];
    std::snprintf(b, sizeof b, "%.17g", x);
    return J(std::string(b));
}
inline J scaled(nf::Vector v, long long s) // (x, 2x, 3x) stands for x
{
    J a = scaled(v[0], s), b = scaled(v[1], s), c = scaled(v[2], s);
    if (a.k != J::Int || b.k != J::Int || c.k != J::Int || b.num() != 2 * a.num() || c.num() != 3 * a.num())
    {
        char t[128];
        std::snprintf(t, sizeof t, "(%.12g %.12g %.12g)", v[0] * double(s), v[1] * double(s), v[2] * double(s));
        return J(std::string(t));
    }
    return a;
}
// three components, each scaled
inline J scaled3(nf::Vector v, long long s) { J r = J::arr(); for (std::size_t k = 0; k < 3; k++) r.add(scaled(v[k], s)); return r; }
inline long long scaleAt(const J& sc, std::size_t i) { return sc.size() == 1 ? sc[0].num() : sc[i].num(); }
template<class T>
J scaledList(const nf::Field<T>& f, const J& sc)
{
    J r = J::arr();
    auto h = f.copyToHost();
    for (std::size_t i = 0; i < h.size(); i++) r.add(scaled(h.data()[i], scaleAt(sc, i)));
    return r;
}

template<class V>
J scaledView(const V& v, long long s)
{
    J r = J::arr();
    for (std::size_t i = 0; i < v.size(); i++) r.add(scaled(v.data()[i], s));
    return r;
}
inline J scaledVecs(const nf::Field<nf::Vector>& f, const J& sc)
{
    J r = J::arr();
    auto h = f.copyToHost();
    for (std::size_t i = 0; i < h.size(); i++) r.add(scaled3(h.data()[i], scaleAt(sc, i)));
    return r;
}
inline J one(long long s = 1) { J r = J::arr(); r.add(J(s)); return r; }
