#include "iogen.h"
#include "iges_reader.h"
#include "iges_writer.h"
using namespace vf;
// the layout of the file itself
void layout(Rng &g) {
  std::vector<Item> in; int n = g.in(0, 4); std::string t; std::vector<std::any> a;
  for (int i = 0; i < n; ++i) { in.push_back(item(g, 1, 2, 1, 3, true)); t += in.back().text() + " | "; a.push_back(in.back().any); }
  note(t); std::string f = scratch(".iges"); Cleanup c; c.f.push_back(f);
  io::IGESWriter w; w.WriteFile(a, f.c_str()); auto L = lines_of(f);
  std::string order = "SGDPT"; size_t at = 0; std::array<int, 5> cnt{};
  std::vector<std::string> D, P;
  for (size_t i = 0; i < L.size(); ++i) {
    require(L[i].size() == 80, "line ", i + 1, " has ", L[i].size(), " characters: ", L[i]);
    size_t k = order.find(L[i][72]); require(k != std::string::npos && k >= at, "line ", i + 1, " has section letter ", L[i][72]); at = k; ++cnt[k];
    require(atoi(L[i].substr(73).c_str()) == cnt[k], "sequence number in line ", i + 1, ": ", L[i]);
    if (k == 2) D.push_back(L[i]); if (k == 3) P.push_back(L[i]);
  }
  require(cnt[0] >= 1 && cnt[1] >= 1 && cnt[4] == 1, "sections missing");
  std::string T = L.back(); std::string letters = "SGDP";
  for (int k = 0; k < 4; ++k) { require(T[8 * k] == letters[k], "terminate section: ", T); require(atoi(T.substr(8 * k + 1, 7).c_str()) == cnt[k], "terminate section states ", T.substr(8 * k, 8), " for ", cnt[k], " lines"); }
  require(cnt[2] == 2 * n, cnt[2], " directory lines for ", n, " splines");
  int start = 1;
  for (int i = 0; i < n; ++i) {
    int type = in[i].D == 1 ? 126 : 128;
    require(atoi(D[2 * i].substr(0, 8).c_str()) == type && atoi(D[2 * i + 1].substr(0, 8).c_str()) == type, "entity type of spline ", i);
    require(atoi(D[2 * i].substr(8, 8).c_str()) == start, "parameter pointer of spline ", i, " is ", D[2 * i].substr(8, 8), " expected ", start);
    int count = atoi(D[2 * i + 1].substr(24, 8).c_str()); require(count >= 1 && start - 1 + count <= static_cast<int>(P.size()), "parameter line count of spline ", i);
    for (int l = start - 1; l < start - 1 + count; ++l) require(atoi(P[l].substr(64, 8).c_str()) == 2 * i + 1, "back pointer in parameter line ", l + 1, ": ", P[l]);
    std::string body; for (int l = start - 1; l < start - 1 + count; ++l) body += P[l].substr(0, 64);
    require(std::count(body.begin(), body.end(), ';') == 1, "parameter data of spline ", i, " does not end once"); require(atoi(body.c_str()) == type, "parameter data of spline ", i, " starts with ", body.substr(0, 10));
    start += count;
  }
  require(start - 1 == static_cast<int>(P.size()), "parameter lines without a directory entry");
}
// values at the limits of the number format
void numbers(Rng &g) {
  Shape<1> s; s.rational = g.flip(); s.p[0] = 1; s.U[0] = {0, 0, 1, 1}; s.n[0] = 2; s.dim = 3; s.total = 2;
  auto val = [&]() { static const double m[] = {1, 2, 5, 9, 1.5, 1.25, 0.1, 1 / 3.0, 123456789.0, 1048576}; double x = m[g.in(0, 9)] * std::pow(10.0, g.in(-25, 25)); return g.in(0, 9) == 0 ? 0.0 : g.flip() ? x : -x; };
  for (int i = 0; i < 2; ++i) { s.P.push_back({val(), val(), val()}); s.w.push_back(s.rational ? std::fabs(val()) + 1e-20 : 1.0); }
  note(s.text()); std::string f = scratch(".iges"); Cleanup c; c.f.push_back(f); io::IGESWriter w; w.WriteFile({to_any(s)}, f.c_str()); io::IGESReader r; auto got = r.ReadFile(f.c_str());
  require(got.size() == 1, "number of splines"); same_shape<1>(s, got[0], 0, 0, 1e-13, 0);
}
void reject(Rng &g) {
  auto it = item(g, 3, 4, 3, 3, false); std::string f = scratch(".iges"); Cleanup c; c.f.push_back(f); io::IGESWriter w; bool threw = false;
  try { w.WriteFile({it.any}, f.c_str()); } catch (const std::runtime_error &) { threw = true; } require(threw, "a spline of dimension ", it.D, " is written to an iges file");
}
int main(int c, char **v) { return drive(c, v, {
  {"curves", [](Rng &g) { roundtrip<io::IGESWriter, io::IGESReader>(g, ".iges", 1, 1, 3, 3, 1e-300, 2e-14, 0, 1); }, 40, 2000},
  {"surfaces", [](Rng &g) { roundtrip<io::IGESWriter, io::IGESReader>(g, ".iges", 2, 2, 3, 3, 1e-300, 2e-14, 0, 1); }, 40, 1500},
  {"mixed", [](Rng &g) { roundtrip<io::IGESWriter, io::IGESReader>(g, ".iges", 1, 2, 3, 3, 1e-300, 2e-14, 0, 0); }, 40, 1500},
  {"layout", layout, 60, 2000}, {"numbers", numbers, 100, 4000}, {"reject", reject, 5, 50}}); }
