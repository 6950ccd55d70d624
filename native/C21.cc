#include "vf.h"
#include "string_operations.h"
using namespace vf; typedef util::StringOperations S;
std::string word(Rng &g, const std::string &alpha, int lo, int hi) { std::string s; int n = g.in(lo, hi); for (int i = 0; i < n; ++i) s += alpha[g.in(0, static_cast<int>(alpha.size()) - 1)]; return s; }
void prefix(Rng &g) {
  std::string a = word(g, "ab.", 0, 7), b = word(g, "ab.", 0, 4); if (g.flip() && !a.empty()) b = g.flip() ? a.substr(0, g.in(0, a.size())) : a.substr(g.in(0, a.size()));
  note("'" + a + "' '" + b + "'"); bool st = a.size() >= b.size() && std::equal(b.begin(), b.end(), a.begin()), en = a.size() >= b.size() && std::equal(b.rbegin(), b.rend(), a.rbegin());
  require(S::StartsWith(a, b) == st, "StartsWith is ", S::StartsWith(a, b)); require(S::EndsWith(a, b) == en, "EndsWith is ", S::EndsWith(a, b));
}
void trim(Rng &g) {
  std::string a = word(g, " \t\nx[]y", 0, 9); note("'" + a + "'"); size_t i = 0, j = a.size(); while (i < j && (isspace(a[i]) || a[i] == '[')) ++i; while (j > i && (isspace(a[j - 1]) || a[j - 1] == ']')) --j;
  require(S::trim(a) == a.substr(i, j - i), "trim gives '", S::trim(a), "'");
}
void split(Rng &g) {
  char d = " ,;"[g.in(0, 2)]; std::string a = word(g, "ab ,;\n", 0, 14); note("'" + a + "' at '" + d + "'"); std::vector<std::string> e; std::string cur;
  for (char c : a) { if (c == d || c == '\n') { if (!cur.empty()) e.push_back(cur); cur.clear(); } else cur += c; } if (!cur.empty()) e.push_back(cur);
  auto r = S::split(a, d); require(r == e, "split gives ", list(r), " expected ", list(e));
}
std::string number(Rng &g) {
  std::string s; int k = g.in(0, 5); if (k == 0) s = "-"; if (k == 1) s = "+"; auto digs = [&](int lo, int hi) { std::string t; int n = g.in(lo, hi); for (int i = 0; i < n; ++i) t += static_cast<char>('0' + g.in(0, 9)); return t; };
  switch (g.in(0, 3)) { case 0: s += digs(1, 9); break; case 1: s += digs(1, 6) + "." + digs(0, 9); break; case 2: s += "." + digs(1, 8); break; default: s += digs(1, 3) + "." + digs(6, 16); }
  if (g.in(0, 2) == 0) { s += g.flip() ? "e" : "E"; int q = g.in(0, 2); if (q == 1) s += "-"; if (q == 2) s += "+"; s += std::to_string(g.in(0, 30)); if (g.flip() && s.back() != '0') {} }
  return s;
}
bool close(double a, double b) { return std::isfinite(a) && std::fabs(a - b) <= 4e-15 * std::fabs(b) * 4; }
void parse(Rng &g) { std::string s = number(g); note(s); double r = S::StringToDouble(s), e = strtod(s.c_str(), nullptr); require(close(r, e), s, " is read as ", r); auto v = S::StringVectorToNumberVector<double>({s, "7", s}); require(v.size() == 3 && v[0] == r && v[1] == 7 && v[2] == r, "vector conversion of ", s); }
void lists(Rng &g) {
  int n = g.in(0, 6); std::string t; std::vector<double> e; for (int i = 0; i < n; ++i) { std::string s = number(g); e.push_back(strtod(s.c_str(), nullptr)); std::string pad(g.in(0, 2), ' '), pad2(g.in(0, 2), ' '); t += pad + s + pad2 + (i == n - 1 && g.flip() ? ';' : ','); }
  note(t); auto r = S::DelimitedStringToVector(t); require(r.size() == e.size(), r.size(), " numbers instead of ", e.size()); for (size_t i = 0; i < e.size(); ++i) require(close(r[i], e[i]), "number ", i, " is ", r[i], " instead of ", e[i]);
}
int main(int c, char **v) { return drive(c, v, {{"prefix and suffix", prefix, 2000, 100000}, {"trim", trim, 1000, 50000}, {"split", split, 1000, 50000}, {"parse", parse, 2000, 100000}, {"lists", lists, 1000, 50000}}); }
