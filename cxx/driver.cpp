// Harness around cpp/samplers.cpp: random draws come from outside, arrays are passed as plain memory.
#include <random>
#ifdef VF_NATIVE
static double (*vf_hop)(int *, int, int);
static void (*vf_begin)(int *, int);
extern "C" void vf_set_probe(double (*h)(int *, int, int), void (*b)(int *, int)) { vf_hop = h; vf_begin = b; }
static int (*vf_int)(int, int, const void *);
static double (*vf_real)(double, double, const void *);
static void vf_raw() {}
extern "C" void vf_set(int (*i)(int, int, const void *), double (*r)(double, double, const void *)) { vf_int = i; vf_real = r; }
#else
extern "C" {
int vf_int(int lo, int hi, const void *gen);
double vf_real(double lo, double hi, const void *gen);
void vf_raw();
double vf_hop(int *s, int n, int site);
void vf_begin(int *s, int n);
}
#endif
namespace std {
template <> inline mt19937_64::result_type mt19937_64::operator()() { vf_raw(); return 0; }
template <> template <> inline int uniform_int_distribution<int>::operator()<mt19937_64>(mt19937_64 &g, const param_type &p) {
    return vf_int(p.a(), p.b(), &g);
}
template <> template <> inline int uniform_int_distribution<int>::operator()<mt19937_64>(mt19937_64 &g) {
    return vf_int(a(), b(), &g);
}
template <> template <> inline double uniform_real_distribution<double>::operator()<mt19937_64>(mt19937_64 &g, const param_type &p) {
    return vf_real(p.a(), p.b(), &g);
}
template <> template <> inline double uniform_real_distribution<double>::operator()<mt19937_64>(mt19937_64 &g) {
    return vf_real(a(), b(), &g);
}
}
#include <array>
#include <vector>
#include <iostream>
#include <math.h>
#include <cmath>
#include <assert.h>
#include <stdio.h>
#include <iterator>
#include <algorithm>
#include <numeric>
#include <utility>
#include <memory>
#include <cstring>
#include <csetjmp>
#include <boost/python.hpp>
#include <boost/python/numpy.hpp>
#define private public
#define protected public
#include "samplers.cpp"
#undef private
#undef protected

static np::ndarray wrap(const void *p, int item, int k) {
    return np::ndarray(static_cast<char *>(const_cast<void *>(p)), item, std::vector<long>(1, k), std::vector<long>(1, item));
}
#ifdef VF_NATIVE
static jmp_buf vf_env;
namespace std { void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept { longjmp(vf_env, 1); } }
#define GUARD(r) if (setjmp(vf_env)) return r;
#else
#define GUARD(r)
#endif
// Samplers whose initial states and steps are supplied from outside.
template <class T> struct Probe : T {
    Probe(int n, np::ndarray m, int seed) : T(n, m, seed) {}
    double sample_metropolis(std::vector<int> &s, int const ix) { return vf_hop(s.data(), (int)s.size(), ix); }
    double calc_e(std::vector<int> const &) { return 0; }
    std::vector<int> init_sample() { std::vector<int> s(this->n); vf_begin(s.data(), this->n); return s; }
};
extern "C" {
int vf_new(int kind, int n, const double *m, int k, int seed, Sampler **out) {
    GUARD(-1)
    if (kind == 2) *out = new Probe<Ising>(n, wrap(m, sizeof(double), k), seed);
    else if (kind == 3) *out = new Probe<Potts3>(n, wrap(m, sizeof(double), k), seed);
    else if (kind == 0) *out = new Ising(n, wrap(m, sizeof(double), k), seed);
    else *out = new Potts3(n, wrap(m, sizeof(double), k), seed);
    return 0;
}
int vf_gen(Sampler *p, const void *g) { return g == &p->rd; }
int vf_seeded(Sampler *p, int seed) { return p->rd == std::mt19937_64(seed); }
int vf_reread(Sampler *p, const double *m, int k) {
    GUARD(-1)
    static_cast<Ising *>(p)->readin_multipliers(wrap(m, sizeof(double), k));
    return 0;
}
int vf_energy(Sampler *p, const int *s, int n, double *out) {
    GUARD(-1)
    *out = p->calc_e(std::vector<int>(s, s + n));
    return 0;
}
int vf_step(Sampler *p, int *s, int n, int ix, double *out) {
    GUARD(-1)
    std::vector<int> v(s, s + n);
    *out = p->sample_metropolis(v, ix);
    for (int i = 0; i < n; ++i) s[i] = v[i];
    return (int)v.size() == n ? 0 : -2;
}
int vf_sample(Sampler *p, int n_samples, int burn_in, int n_iters, int systematic) {
    GUARD(-1)
    p->generate_sample(n_samples, burn_in, n_iters, systematic != 0);
    return 0;
}
int vf_cond(Sampler *p, const int *ix, const int *vals, int k, int n_samples, int burn_in, int n_iters, int systematic) {
    GUARD(-1)
    p->generate_cond_sample(wrap(ix, sizeof(int), k), wrap(vals, sizeof(int), k), n_samples, burn_in, n_iters, systematic != 0);
    return 0;
}
int vf_fetch(Sampler *p, int *out, int rows, int cols) {
    GUARD(-1)
    np::ndarray a = p->fetch_sample();
    if (a.get_nd() != 2 || a.shape(0) != rows || a.shape(1) != cols || a.size != (int)sizeof(int)) return -2;
    for (int i = 0; i < rows; ++i)
        for (int j = 0; j < cols; ++j)
            out[i * cols + j] = *reinterpret_cast<int *>(a.get_data() + i * a.strides(0) + j * a.strides(1));
    return 0;
}
int vf_means(Sampler *p, double *out, int n) {
    GUARD(-1)
    std::vector<double> m = p->means();
    if ((int)m.size() != n) return -2;
    for (int i = 0; i < n; ++i) out[i] = m[i];
    return 0;
}
int vf_params(Sampler *p, double *out, int k) {
    GUARD(-1)
    np::ndarray a = static_cast<Potts3 *>(p)->multipliers2ndarray();
    if (a.get_nd() != 1 || a.shape(0) != k) return -2;
    for (int i = 0; i < k; ++i) out[i] = *reinterpret_cast<double *>(a.get_data() + i * a.strides(0));
    return 0;
}
}
