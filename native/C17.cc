#include "iogen.h"
#include "io_converter.h"
#include "xml_reader.h"
#include "xml_writer.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "iges_reader.h"
#include "iges_writer.h"
#include "vtk_writer.h"
using namespace vf;
std::string slurp(const std::string &f) { std::ifstream i(f); require(i.good(), "no file ", f); std::stringstream s; s << i.rdbuf(); return s.str(); }
void write(const std::string &ext, const std::vector<std::any> &a, const std::string &f) { if (ext == ".xml") io::XMLWriter().WriteFile(a, f.c_str()); else if (ext == ".itd") io::IRITWriter().WriteFile(a, f.c_str()); else io::IGESWriter().WriteFile(a, f.c_str()); }
std::vector<std::any> readf(const std::string &ext, const std::string &f) { if (ext == ".xml") return io::XMLReader().ReadFile(f.c_str()); if (ext == ".itd") return io::IRITReader().ReadFile(f.c_str()); return io::IGESReader().ReadFile(f.c_str()); }
int maxdim(const std::string &e) { return e == ".iges" ? 2 : e == ".itd" ? 3 : e == ".vtk" ? 3 : 4; }
std::string stem(Rng &g) { static const char *m[] = {"", "_a.xml", "_b.iges", "_c.vtk", ".itd", "x"}; return m[g.in(0, 5)]; }
void convert(Rng &g, bool vtk) {
  static const char *in_ext[] = {".xml", ".itd", ".iges"}; std::string ie = in_ext[g.in(0, 2)], oe = vtk ? ".vtk" : in_ext[g.in(0, 2)]; int n = g.in(1, 5);
  std::vector<Item> items; std::vector<std::any> a; for (int i = 0; i < n; ++i) { GenOpt o; items.push_back(item(g, 1, maxdim(ie), 3, 3, false)); a.push_back(items.back().any); }
  std::string fi = scratch(stem(g) + ie), fo = scratch(stem(g) + oe), fe = scratch("_e" + oe); Cleanup c; c.f = {fi, fo, fe}; write(ie, a, fi); auto read_in = readf(ie, fi);
  io::IOConverter conv(fi.c_str(), fo.c_str());
  for (int round = 0; round < 2; ++round) {
    std::vector<int> pos; int k = g.in(0, 2); if (k) { std::vector<int> all; for (int i = 0; i < n; ++i) all.push_back(i); if (k == 2) for (int i = n - 1; i > 0; --i) std::swap(all[i], all[g.in(0, i)]); for (int x : all) if (g.in(0, 2)) pos.push_back(x); }
    std::vector<int> want; std::vector<std::vector<int>> sc, esc;
    auto cand = pos; if (pos.empty()) for (int i = 0; i < n; ++i) cand.push_back(i);
    for (int x : cand) { std::vector<int> s; for (int d = 0; d < items[x].D; ++d) s.push_back(g.in(1, 3)); sc.push_back(s); if (items[x].D <= maxdim(oe)) { want.push_back(x); esc.push_back(s); } }
    std::string t; for (auto &i : items) t += str(i.D, " "); note(str("dimensions ", t, ie, " to ", oe, " positions ", list(pos), " round ", round));
    auto got = conv.ConvertFile(pos, vtk ? sc : std::vector<std::vector<int>>{}); require(got == want, "reported positions ", list(got), " instead of ", list(want));
    std::vector<std::any> sel; for (int x : want) sel.push_back(read_in[x]);
    if (vtk) { if (want.empty()) continue; io::VTKWriter().WriteFile(sel, fe, esc); require(slurp(fo) == slurp(fe), "vtk file is not that of the selected splines"); }
    else { auto out = readf(oe, fo); require(out.size() == want.size(), out.size(), " splines written instead of ", want.size()); for (size_t i = 0; i < want.size(); ++i) same_item(items[want[i]], out[i], want[i], 4e-6, 1e-12, 1); }
  }
}
void reject(Rng &g) {
  std::vector<Item> items{item(g, 1, 2, 3, 3, false)}; std::string fi = scratch(".xml"); Cleanup c; c.f.push_back(fi); write(".xml", {items[0].any}, fi); int k = g.in(0, 4); std::string fo; std::vector<std::vector<int>> sc;
  bool threw = false; std::string in = fi;
  if (k == 0) fo = scratch(".txt"); if (k == 1) { in = scratch(".vtk"); fo = scratch(".xml"); c.f.push_back(in); std::ofstream(in) << "x"; } if (k == 2) fo = scratch(".vtk"); if (k == 3) { fo = scratch(".vtk"); sc = {{1, 1, 1}}; } if (k == 4) fo = scratch("xml");
  note(str("case ", k, " ", in, " ", fo)); c.f.push_back(fo); try { io::IOConverter(in.c_str(), fo.c_str()).ConvertFile({}, sc); } catch (const std::runtime_error &) { threw = true; } require(threw, "not rejected");
}
void dims(Rng &g) {
  int n = g.in(0, 6); std::vector<std::any> a; std::vector<int> d; for (int i = 0; i < n; ++i) { auto it = item(g, 1, 4, 3, 3, false); a.push_back(it.any); d.push_back(it.D); }
  int m = g.in(0, 4); std::vector<int> want; for (int i = 0; i < n; ++i) if (d[i] <= m) want.push_back(i); note(list(d)); auto r = io::IOConverter::GetSplinePositionsOfCorrectDimension(a, m); require(r == want, "positions ", list(r), " for at most ", m);
}
int main(int c, char **v) { return drive(c, v, {{"convert", [](Rng &g) { convert(g, false); }, 60, 2000}, {"vtk", [](Rng &g) { convert(g, true); }, 40, 1000}, {"reject", reject, 20, 100}, {"dimensions", dims, 40, 400}}); }
