// Stand-ins for the parts of Rcpp and Armadillo the R interface uses, so that its C++ source can be
// parsed and type-checked without R.  Only the meaning the rules rely on is given: vectors are
// indexed sequences, a cube reads column-major memory, frames and lists are named columns.
#pragma once
#include <cmath>
#include <cstddef>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
typedef struct SEXPREC *SEXP;

namespace Rcpp {
class IntegerVector {
public:
    std::vector<int> v;
    IntegerVector() {}
    explicit IntegerVector(int n) : v(n, 0) {}
    IntegerVector(const std::vector<int> &x) : v(x) {}
    int &operator[](int i) { return v[i]; }
    int &operator()(int i) { return v[i]; }
    const int &operator[](int i) const { return v[i]; }
    const int &operator()(int i) const { return v[i]; }
    int size() const { return v.size(); }
    int length() const { return v.size(); }
    void push_back(int x) { v.push_back(x); }
    std::vector<int>::iterator begin() { return v.begin(); }
    std::vector<int>::iterator end() { return v.end(); }
};
class NumericVector {
public:
    std::vector<double> v;
    IntegerVector dim;
    NumericVector() {}
    explicit NumericVector(int n) : v(n, 0) {}
    NumericVector(const std::vector<double> &x) : v(x) {}
    double &operator[](int i) { return v[i]; }
    double &operator()(int i) { return v[i]; }
    const double &operator[](int i) const { return v[i]; }
    const double &operator()(int i) const { return v[i]; }
    int size() const { return v.size(); }
    int length() const { return v.size(); }
    void push_back(double x) { v.push_back(x); }
    std::vector<double>::iterator begin() { return v.begin(); }
    std::vector<double>::iterator end() { return v.end(); }
    IntegerVector attr(const char *) const { return dim; }
};
class Arg {};
class Named {
public:
    explicit Named(const char *name);
    template <class T> Arg operator=(const T &value);
};
class Underscore {
public:
    Named operator[](const char *name);
};
extern Underscore _;
class DataFrame {
public:
    template <class... A> static DataFrame create(const A &...args);
};
class List {
public:
    template <class... A> static List create(const A &...args);
};
template <class T> T as(SEXP x);
}

namespace arma {
class cube {
public:
    std::vector<double>::iterator mem;
    int n_rows, n_cols, n_slices;
    cube(std::vector<double>::iterator m, int r, int c, int s, bool copy = true, bool strict = false) : mem(m), n_rows(r), n_cols(c), n_slices(s) {}
    double operator()(int i, int j, int k) const { return mem[i + j * n_rows + k * n_rows * n_cols]; }
};
}
