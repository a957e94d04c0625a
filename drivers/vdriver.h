// Replay driver support: reads cases from stdin, runs the real function, prints
// every array and result.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <span>
#include <sstream>
#include <string>
#include <vector>

#include "Eigen/Dense"

namespace vd {
struct Case {
  std::map<std::string, long> ints;
  std::map<std::string, double> reals;
  std::map<std::string, std::string> strs;
  std::map<std::string, std::vector<double>> arr;
  std::map<std::string, std::vector<int>> iarr;
  std::vector<std::pair<std::string, std::vector<double>>> outs;
  int i(const std::string& n) const { return static_cast<int>(ints.at(n)); }
  bool b(const std::string& n) const { return ints.at(n) != 0; }
  double r(const std::string& n) const { return reals.at(n); }
  std::string s(const std::string& n) const { return strs.at(n); }
  double* p(const std::string& n) {
    std::vector<double>& v = arr.at(n);
    return v.data();
  }
  std::vector<double>& v(const std::string& n) { return arr.at(n); }
  std::vector<int>& iv(const std::string& n) { return iarr.at(n); }
  Eigen::VectorXd e(const std::string& n) {
    std::vector<double>& v = arr.at(n);
    Eigen::VectorXd r(v.size());
    for (size_t k = 0; k < v.size(); ++k) r[k] = v[k];
    return r;
  }
  Eigen::VectorXi ei(const std::string& n) {
    std::vector<int>& v = iarr.at(n);
    Eigen::VectorXi r(v.size());
    for (size_t k = 0; k < v.size(); ++k) r[k] = v[k];
    return r;
  }
  template <class M = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>>
  M m(const std::string& n, int rows, int cols) {
    std::vector<double>& v = arr.at(n);
    M r(rows, cols);
    for (int a = 0; a < rows; ++a)
      for (int b = 0; b < cols; ++b) r(a, b) = v.at((size_t)a * cols + b);
    return r;
  }
  // overwrite a case array with the values after the call
  template <class T>
  void set(const std::string& n, const T& x) {
    if (iarr.count(n)) {
      std::vector<int> t;
      for (long k = 0; k < (long)x.size(); ++k) t.push_back((int)x[k]);
      iarr[n] = t;
      return;
    }
    std::vector<double> t;
    for (long k = 0; k < (long)x.size(); ++k) t.push_back((double)x[k]);
    arr[n] = t;
  }
  template <class M>
  void setm(const std::string& n, const M& x) {
    std::vector<double> t;
    for (long a = 0; a < (long)x.rows(); ++a)
      for (long b = 0; b < (long)x.cols(); ++b) t.push_back((double)x(a, b));
    if (iarr.count(n)) {
      std::vector<int> ti(t.begin(), t.end());
      iarr[n] = ti;
      return;
    }
    arr[n] = t;
  }
  void out(const std::string& n, double x) { outs.push_back({n, {x}}); }
  template <class T>
  void outv(const std::string& n, const T& x) {
    std::vector<double> t;
    for (long k = 0; k < (long)x.size(); ++k) t.push_back((double)x[k]);
    outs.push_back({n, t});
  }
};

using Fn = std::function<void(Case&)>;

inline int Main(const std::map<std::string, Fn>& table) {
  std::string line;
  Case c;
  std::string id, name;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string k, n;
    is >> k;
    if (k == "case") {
      c = Case();
      is >> id >> name;
    } else if (k == "i") {
      long x;
      is >> n >> x;
      c.ints[n] = x;
    } else if (k == "r") {
      std::string x;
      is >> n >> x;
      c.reals[n] = strtod(x.c_str(), nullptr);
    } else if (k == "s") {
      is >> n;
      std::string rest;
      std::getline(is, rest);
      if (!rest.empty() && rest[0] == ' ') rest = rest.substr(1);
      // \n and \\ escapes
      std::string o;
      for (size_t q = 0; q < rest.size(); ++q) {
        if (rest[q] == '\\' && q + 1 < rest.size()) {
          ++q;
          o += rest[q] == 'n' ? '\n' : rest[q];
        } else {
          o += rest[q];
        }
      }
      c.strs[n] = o;
    } else if (k == "d") {
      long m;
      is >> n >> m;
      std::vector<double> t(m);
      std::string x;
      for (long q = 0; q < m; ++q) {
        is >> x;
        t[q] = strtod(x.c_str(), nullptr);
      }
      c.arr[n] = t;
    } else if (k == "l") {
      long m;
      is >> n >> m;
      std::vector<int> t(m);
      for (long q = 0; q < m; ++q) is >> t[q];
      c.iarr[n] = t;
    } else if (k == "run") {
      printf("begin %s\n", id.c_str());
      fflush(stdout);
      table.at(name)(c);
      for (auto& kv : c.arr) {
        printf("d %s %zu", kv.first.c_str(), kv.second.size());
        for (double x : kv.second) printf(" %.17g", x);
        printf("\n");
      }
      for (auto& kv : c.iarr) {
        printf("d %s %zu", kv.first.c_str(), kv.second.size());
        for (int x : kv.second) printf(" %d", x);
        printf("\n");
      }
      for (auto& kv : c.outs) {
        printf("d %s %zu", kv.first.c_str(), kv.second.size());
        for (double x : kv.second) printf(" %.17g", x);
        printf("\n");
      }
      printf("end %s\n", id.c_str());
      fflush(stdout);
    }
  }
  return 0;
}
}  // namespace vd
