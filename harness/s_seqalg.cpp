#include "seq.h"
#include "data/string/algorithm.h"
#include "data/string/ustring.h"
using namespace pfi::data::string;
static std::vector<int> ints(const std::string& s) { std::vector<int> v; std::istringstream is(s); std::string t; if (s == "-") return v; while (std::getline(is, t, ',')) v.push_back(num(t)); return v; }
static std::vector<long> L(const std::vector<int>& v) { return std::vector<long>(v.begin(), v.end()); }
void run_case(const std::vector<words>& c) {
  event("new").a(0);
  for (size_t i = 0; i < c.size(); i++) {
    const std::string& op = c[i][0]; std::string k = c[i][1]; std::vector<int> a = ints(c[i][2]), b = ints(c[i].size() > 3 ? c[i][3] : "-");
    event e(op); e.a(L(a)); if (op != "lis") e.a(L(b));
    long r = 0;
    if (k == "s") { std::string x(a.begin(), a.end()), y(b.begin(), b.end()); r = op == "ed" ? edit_distance(x, y) : op == "lcs" ? longest_common_subsequence(x, y) : longest_increasing_subsequence(x); }
    else if (k == "u") { ustring x(a.begin(), a.end()), y(b.begin(), b.end()); r = op == "ed" ? edit_distance(x, y) : op == "lcs" ? longest_common_subsequence(x, y) : longest_increasing_subsequence(x); }
    else if (k == "d") { std::vector<double> x, y; for (size_t j = 0; j < a.size(); j++) x.push_back(a[j] / 8.0); for (size_t j = 0; j < b.size(); j++) y.push_back(b[j] / 8.0); r = op == "ed" ? edit_distance(x, y) : op == "lcs" ? longest_common_subsequence(x, y) : longest_increasing_subsequence(x); }
    else if (k == "l") { std::vector<long long> x, y; for (size_t j = 0; j < a.size(); j++) x.push_back(a[j] * 4294967296LL); for (size_t j = 0; j < b.size(); j++) y.push_back(b[j] * 4294967296LL); r = op == "ed" ? edit_distance(x, y) : op == "lcs" ? longest_common_subsequence(x, y) : longest_increasing_subsequence(x); }
    else r = op == "ed" ? edit_distance(a, b) : op == "lcs" ? longest_common_subsequence(a, b) : longest_increasing_subsequence(a);
    e.r(r);
  }
}
