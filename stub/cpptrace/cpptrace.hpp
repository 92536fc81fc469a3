// Stand-in for cpptrace: the debug build of the error macros asks for a printable stack trace.
#pragma once
#include <string>
namespace cpptrace
{
struct stacktrace
{
    std::string to_string() const { return "<stack trace>"; }
};
inline stacktrace generate_trace() { return {}; }
}
