// Many threads create documents at once; every generated id is written down.
#include "json.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <barrier>
#include <thread>
using NeoFOAM::Dictionary;
using NeoFOAM::Document;
int main(int argc, char** argv)
{
    int nt = std::atoi(argv[1]), per = std::atoi(argv[2]);
    std::vector<std::vector<std::string>> ids(static_cast<std::size_t>(nt));
    std::barrier sync(nt);
    std::vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            auto& mine = ids[static_cast<std::size_t>(t)];
            for (int i = 0; i < per; i++)
            {
                sync.arrive_and_wait();
                if (i % 3 == 0) mine.push_back(Document().id());
                else if (i % 3 == 1) mine.push_back(Document(Dictionary({{"name", std::string("x")}})).id());
                else
                {
                    Document d(Dictionary({{"v", 1}}), [](const Dictionary& x) { return x.contains("v"); });
                    Document c(d); // a copy draws no new identity
                    mine.push_back(c.id() == d.id() ? d.id() : "copy changed the id");
                }
            }
        });
    for (auto& t : ts) t.join();
    for (std::size_t t = 0; t < ids.size(); t++)
        for (std::size_t i = 0; i < ids[t].size(); i++)
        {
            J e = J::obj();
            e.set("t", "t" + std::to_string(t)).set("i", i + 1).set("id", ids[t][i]);
            std::cout << e.dump() << "\n";
        }
}
