// Minimal stand-in for Boost.Python: only what cpp/samplers.* uses, as plain C++.
#pragma once
#include <cstddef>
#include <vector>
namespace boost { namespace python {
struct object {};
struct tuple { std::vector<long> v; };
template <class... A> inline tuple make_tuple(A... a) { tuple t; t.v = std::vector<long>{static_cast<long>(a)...}; return t; }
inline long len(tuple const &t) { return (long)t.v.size(); }
} }
