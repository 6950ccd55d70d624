#include "iogen.h"
#include "irit_reader.h"
#include "irit_writer.h"
using namespace vf;
int main(int c, char **v) { return drive(c, v, {
  {"curves", [](Rng &g) { roundtrip<io::IRITWriter, io::IRITReader>(g, ".itd", 1, 1, 1, 9, 6e-7, 1e-14, 1, 1); }, 40, 2000},
  {"surfaces", [](Rng &g) { roundtrip<io::IRITWriter, io::IRITReader>(g, ".itd", 2, 2, 1, 9, 6e-7, 1e-14, 1, 1); }, 30, 1500},
  {"mixed", [](Rng &g) { roundtrip<io::IRITWriter, io::IRITReader>(g, ".itd", 1, 3, 1, 9, 6e-7, 1e-14, 1, 0); }, 30, 1500}}); }
