#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace racert
{
enum Kind
{
    Read,
    Write,
    AtomicRead,
    AtomicWrite
};
struct Access
{
    uintptr_t addr;
    long iter;
    int kind;
};
struct Conflict
{
    uintptr_t addr;
    std::string why;
};
struct Launch
{
    std::string name;
    std::vector<Conflict> conflicts;
    std::vector<Access> accesses;
};
extern bool recording;
extern std::vector<Launch> launches;
void reset();
}
