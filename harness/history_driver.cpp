// Replays behaviours of FieldHistory.tla.
#include "fv.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
namespace fvcc = nf::finiteVolume::cellCentred;
using T = ELEM;
using Vol = fvcc::VolumeField<T>;
using Other = fvcc::VolumeField<std::conditional_t<std::is_same_v<T, nf::Vector>, nf::scalar, nf::Vector>>;
static const std::int64_t none = std::numeric_limits<std::int64_t>::max();
static std::int64_t index(long long t) { return t > 900000 ? none - (1000000 - t) : t; }
static J shown(std::int64_t t) { return t > none - 1000 ? J(static_cast<long long>(1000000 - (none - t))) : J(static_cast<long long>(t)); }
// <<base, number of "_0">>
static J named(std::string n)
{
    long long k = 0;
    while (n.size() > 2 && n.substr(n.size() - 2) == "_0")
    {
        n.resize(n.size() - 2);
        k++;
    }
    J r = J::arr();
    r.add(J(n)).add(J(k));
    return r;
}
struct Entry
{
    std::size_t db;
    std::string col;
    Vol* f;
    std::string key;
};
struct S : Session
{
    std::unique_ptr<nf::Database> dbs[2];
    nf::UnstructuredMesh* mesh = nullptr;
    std::vector<Entry> docs;
    std::map<std::string, std::unique_ptr<Vol>> slots;
    fvcc::FieldCollection& col(const J& c) { return fvcc::FieldCollection::instance(*dbs[c[0].num() - 1], c[1].str()); }
    fvcc::FieldCollection& colOf(const Entry& e) { return fvcc::FieldCollection::instance(*dbs[e.db], e.col); }
    fvcc::FieldDocument& doc(const Entry& e) { return colOf(e).fieldDoc(e.key); }
    Vol& ref(const std::string& h) { return std::isdigit(h[0]) ? *docs.at(std::size_t(std::stoll(h) - 1)).f : *slots.at(h); }
    std::vector<T> cells(long long k)
    {
        std::vector<T> r;
        for (std::size_t i = 1; i <= std::size_t(mesh->nCells()); i++) r.push_back(val<T>(10 * k + (long long)i));
        return r;
    }
    std::vector<T> faces(long long k)
    {
        std::vector<T> r;
        for (std::size_t i = 1; i <= std::size_t(mesh->nBoundaryFaces()); i++) r.push_back(val<T>(100 * k + (long long)i));
        return r;
    }
    void write(Vol& f, const std::string& what, long long k)
    {
        if (what == "cells") f.internalField() = nf::Field<T>(mesh->exec(), cells(k));
        else if (what == "faces") f.boundaryField().value() = nf::Field<T>(mesh->exec(), faces(k));
        else f.correctBoundaryConditions();
    }
    Vol make(const std::string& n, long long k, long long bc)
    {
        std::vector<fvcc::VolumeBoundary<T>> bcs;
        for (std::size_t p = 0; p < std::size_t(mesh->nBoundaries()); p++)
        {
            nf::Dictionary d;
            d.insert("type", std::string("fixedValue"));
            d.insert("fixedValue", val<T>(bc + (long long)p + 1));
            bcs.push_back(fvcc::VolumeBoundary<T>(*mesh, d, p));
        }
        Vol v(mesh->exec(), n, *mesh, bcs);
        write(v, "cells", k);
        write(v, "faces", k);
        return v;
    }
    // which document a reference is, adding it if it is new
    J which(Vol& f, std::size_t db, const std::string& c)
    {
        for (std::size_t i = 0; i < docs.size(); i++)
            if (docs[i].f == &f) return retVal(tv("doc", std::to_string(i + 1)));
        docs.push_back({db, c, &f, f.key});
        return retVal(tv("doc", std::to_string(docs.size())));
    }
    J step(const J& op) override
    {
        schedule(op["s"].num());
        const std::string o = op["n"].str(), h = op["h"].str(), k = op["k"].str();
        const J& a = op["a"];
        if (o == "new")
        {
            slots.clear();
            docs.clear();
            for (auto& d : dbs) d = std::make_unique<nf::Database>();
            mesh = &meshOf(a[0].str(), a[1].num());
        }
        else if (o == "register")
        {
            const J& t = a[2];
            std::size_t db = std::size_t(a[0][0].num() - 1);
            auto& c = col(a[0]);
            std::string n = a[1].str();
            if (a[3].num() % 2)
            {
                Vol v = make(n, a[3].num(), a[4].num());
                return which(c.registerField<Vol>(fvcc::CreateFromExistingField<Vol> {.name = n, .field = v, .timeIndex = index(t[0].num()), .iterationIndex = index(t[1].num()), .subCycleIndex = index(t[2].num())}), db, c.name());
            }
            auto create = [&](nf::Database& into) {
                nf::Field<T> in(mesh->exec(), cells(a[3].num()));
                Vol v = make(n, a[3].num(), a[4].num());
                nf::DomainField<T> both(mesh->exec(), v.internalField(), v.boundaryField());
                return fvcc::FieldDocument(Vol(mesh->exec(), n, *mesh, both, v.boundaryConditions(), into, "", ""), index(t[0].num()), index(t[1].num()), index(t[2].num()));
            };
            return which(c.registerField<Vol>(create), db, c.name());
        }
        else if (o == "from")
        {
            auto& c = col(a[0]);
            fvcc::CreateFromExistingField<Vol> make {.name = a[1].str(), .field = ref(h)};
            const J& t = a[2];
            if (index(t[0].num()) != none) make.timeIndex = index(t[0].num());
            if (index(t[1].num()) != none) make.iterationIndex = index(t[1].num());
            if (index(t[2].num()) != none) make.subCycleIndex = index(t[2].num());
            return which(c.registerField<Vol>(make), std::size_t(a[0][0].num() - 1), c.name());
        }
        else if (o == "share" || (o == "again" && k == "register"))
        {
            Entry e = docs[std::size_t(std::stoll(h) - 1)];
            auto& c = o == "share" ? col(a[0]) : colOf(e);
            return guarded([&] { return which(c.registerField<Vol>([&](nf::Database&) { return doc(e); }), e.db, c.name()); });
        }
        else if (o == "again")
        {
            Entry e = docs[std::size_t(std::stoll(h) - 1)];
            fvcc::FieldDocument d = doc(e);
            return retBool(colOf(e).insert(d) != "");
        }
        else if (o == "bad")
            return guarded([&] {
                auto& c = col(a[0]);
                if (k == "type") doc(docs[std::size_t(std::stoll(h) - 1)]).field<Other>();
                else if (k == "key") c.fieldDoc("no such key");
                else
                {
                    nf::Dictionary d;
                    for (std::string s : {"timeIndex", "iterationIndex", "subCycleIndex"}) d.insert(s, std::int64_t(1));
                    d.insert("name", std::string("x"));
                    auto create = [&](nf::Database&) { return fvcc::FieldDocument(nf::Document(d)); };
                    if (k == "document") create(*dbs[0]);
                    else c.registerField<Vol>(create);
                }
                return retOk();
            });
        else if (o == "old")
            return guarded([&] {
                Vol& f = ref(h);
                Vol& r = fvcc::oldTime(f);
                return which(r, 0, "?"); // completed below
            });
        else if (o == "read")
        {
            const Vol& f = ref(h);
            J r = J::arr();
            if (f.registered())
            {
                std::string e = dying([&] { fvcc::oldTime(f); });
                if (e != "") return ret(e == "crashed" ? e : "refused", okv());
            }
            return guarded([&] {
                const Vol& r = fvcc::oldTime(f);
                for (std::size_t i = 0; i < docs.size(); i++)
                    if (docs[i].f == &r) return retVal(tv("doc", std::to_string(i + 1)));
                return retVal(tv("doc", "unknown"));
            });
        }
        else if (o == "forget") return retBool(dbs[a[0][0].num() - 1]->remove(a[0][1].str() + "_oldTime"));
        else if (o == "write") write(ref(h), k, a[0].num());
        else if (o == "amend")
        {
            auto& d = doc(docs[std::size_t(std::stoll(h) - 1)]);
            if (k == "name") d.name() = a[0].str();
            else if (k == "time") d.timeIndex() = index(a[0].num());
            else if (k == "iteration") d.iterationIndex() = index(a[0].num());
            else d.subCycleIndex() = index(a[0].num());
        }
        else if (o == "copy")
        {
            slots.erase(h);
            slots[h] = std::make_unique<Vol>(ref(a[0].str()));
        }
        else if (o == "loose") slots[h] = std::make_unique<Vol>(make("loose", a[0].num(), a[1].num()));
        else if (o == "find")
        {
            auto& c = col(a[0]);
            auto hits = c.find([&](const nf::Document& d) {
                if (k == "name") return d.get<std::string>("name") == a[1].str();
                return d.get<std::int64_t>(k + "Index") == index(a[1].num());
            });
            J r = J::arr();
            std::size_t known = 0;
            for (std::size_t i = 0; i < docs.size(); i++)
                for (auto& x : hits)
                    if (docs[i].key == x && &colOf(docs[i]) == &c)
                    {
                        r.add(J(static_cast<long long>(i + 1)));
                        known++;
                    }
            if (known != hits.size()) r.add(J("unknown"));
            J v = J::obj();
            v.set("t", "docs").set("v", r);
            return retVal(v);
        }
        return retOk();
    }
    long long indexOf(const Entry& e, const std::string& key)
    {
        for (std::size_t i = 0; i < docs.size(); i++)
            if (docs[i].db == e.db && docs[i].col == e.col && docs[i].key == key) return (long long)i + 1;
        return -1;
    }
    long long firstWith(const std::string& key)
    {
        for (std::size_t i = 0; i < docs.size(); i++)
            if (docs[i].key == key) return (long long)i + 1;
        return -1;
    }
    J obs() override
    {
        J r = J::obj(), l = J::arr(), s = J::obj();
        for (auto& e : docs)
            if (e.col == "?")
            {
                e.col = e.f->fieldCollectionName;
                e.db = &e.f->db() == dbs[0].get() ? 0 : 1;
            }
        for (auto& e : docs)
        {
            J d = J::obj(), c = J::arr(), t = J::arr(), o = J::arr(), n = J::arr();
            const Vol& f = *e.f;
            auto& owner = colOf(e);
            const auto& rec = const_cast<const fvcc::FieldCollection&>(owner).fieldDoc(e.key);
            std::string wrong;
            if (&fvcc::FieldCollection::instance(*e.f) != &owner || &fvcc::FieldCollection::instance(f) != &owner) wrong = "another collection";
            if (&fvcc::FieldCollection::instance(*const_cast<const nf::Database*>(dbs[e.db].get()), e.col) != &owner) wrong = "another collection (const)";
            if (&rec.field<Vol>() != &f || &doc(e).field<Vol>() != &f) wrong = "another field";
            if (!f.registered() || f.fieldCollectionName != e.col || f.key != e.key || &f.db() != dbs[e.db].get()) wrong = "not registered where it is";
            if (rec.id() != e.key || !owner.contains(e.key)) wrong = "another key";
            if (nameOf(f.exec()) != nameOf(mesh->exec()) || &f.mesh() != mesh) wrong = "another mesh or executor";
            if (doc(e).timeIndex() != rec.timeIndex() || doc(e).name() != rec.name() || doc(e).iterationIndex() != rec.iterationIndex() || doc(e).subCycleIndex() != rec.subCycleIndex()) wrong = "accessors differ";
            c.add(J((long long)e.db + 1)).add(J(e.col));
            t.add(shown(rec.timeIndex())).add(shown(rec.iterationIndex())).add(shown(rec.subCycleIndex()));
            std::string oc = e.col + "_oldTime";
            if (dbs[e.db]->contains(oc))
            {
                const auto& olds = fvcc::OldTimeCollection::instance(const_cast<const fvcc::FieldCollection&>(owner));
                if (&olds != &fvcc::OldTimeCollection::instance(owner)) wrong = "another history";
                std::string id = olds.findNextTime(e.key), up = olds.findPreviousTime(e.key);
                if (id != "")
                {
                    const auto& od = olds.oldTimeDoc(id);
                    if (od.id() != id || od.nextTime() != e.key || !olds.contains(id)) wrong = "another document of the history";
                    o.add(J(indexOf(e, od.previousTime()))).add(J(indexOf(e, od.currentTime()))).add(J((long long)od.level()));
                }
                if (up != "") n.add(J(indexOf(e, olds.oldTimeDoc(up).nextTime())));
            }
            d.set("c", c).set("key", J(firstWith(e.key))).set("dn", named(rec.name())).set("fn", named(f.name)).set("t", t);
            d.set("v", listOf(f.internalField())).set("b", listOf(f.boundaryField().value())).set("same", wrong).set("old", o).set("nxt", n);
            l.add(d);
        }
        // nothing else is in the collections
        for (auto& e : docs)
        {
            std::size_t here = 0;
            for (auto& x : docs) here += x.db == e.db && x.col == e.col;
            if (colOf(e).size() != here || colOf(e).sortedKeys().size() != here) l.add(J("further documents"));
        }
        for (auto& [n, f] : slots)
        {
            J x = J::obj();
            std::string c = f->fieldCollectionName;
            x.set("of", J(f->registered() ? indexOf({&f->db() == dbs[0].get() ? 0ul : 1ul, c, nullptr, ""}, f->key) : 0)).set("v", listOf(f->internalField())).set("b", listOf(f->boundaryField().value()));
            s.set(n, x);
        }
        r.set("docs", l).set("held", s);
        return r;
    }
};
int main(int, char** argv)
{
    shim::control.splitMemory = true;
    meshRecords = J::parse(argv[1]);
    return runDriver([] { return std::make_unique<S>(); });
}
