// Minimal stand-in for Boost.NumPy arrays (a view on memory with shape and strides).
#pragma once
#include "../python.hpp"
#include <cstring>
namespace boost { namespace python { namespace numpy {
struct dtype {
    int size;
    template <class T> static dtype get_builtin() { dtype d; d.size = sizeof(T); return d; }
    int get_itemsize() const { return size; }
};
struct ndarray {
    char *data;
    int size;
    std::vector<long> shp, str;
    ndarray() : data(nullptr), size(0) {}
    ndarray(char *d, int sz, std::vector<long> const &sh, std::vector<long> const &st)
        : data(d), size(sz), shp(sh), str(st) {}
    char *get_data() const { return data; }
    int get_nd() const { return (int)shp.size(); }
    long shape(int i) const { return shp[i]; }
    long strides(int i) const { return str[i]; }
    dtype get_dtype() const { dtype d; d.size = size; return d; }
    ndarray copy() const {
        std::vector<long> cs(shp.size());
        long tot = size;
        for (int i = (int)shp.size() - 1; i >= 0; --i) { cs[i] = tot; tot *= shp[i]; }
        ndarray r(nullptr, size, shp, cs);
        r.data = static_cast<char *>(::operator new(tot ? tot : 1));   // never freed: test runs are short
        std::vector<long> ix(shp.size(), 0);
        long n = tot / size;
        for (long k = 0; k < n; ++k) {
            long a = 0, b = 0;
            for (size_t q = 0; q < shp.size(); ++q) { a += ix[q] * str[q]; b += ix[q] * cs[q]; }
            std::memcpy(r.data + b, data + a, size);
            for (int q = (int)shp.size() - 1; q >= 0; --q) { if (++ix[q] < shp[q]) break; ix[q] = 0; }
        }
        return r;
    }
};
inline ndarray from_data(const void *d, dtype const &dt, tuple const &shape, tuple const &strides, object const &) {
    return ndarray(static_cast<char *>(const_cast<void *>(d)), dt.size, shape.v, strides.v);
}
inline ndarray zeros(tuple const &shape, dtype const &dt) {
    std::vector<long> cs(shape.v.size());
    long tot = dt.size;
    for (int i = (int)cs.size() - 1; i >= 0; --i) { cs[i] = tot; tot *= shape.v[i]; }
    char *p = static_cast<char *>(::operator new(tot ? tot : 1));
    std::memset(p, 0, tot);
    return ndarray(p, dt.size, shape.v, cs);
}
inline ndarray empty(tuple const &shape, dtype const &dt) { return zeros(shape, dt); }
inline void initialize() {}
} } }
