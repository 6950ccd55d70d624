#include "iogen.h"
#include "xml_reader.h"
#include "xml_writer.h"
using namespace vf;
int main(int c, char **v) { return drive(c, v, {
  {"curves", [](Rng &g) { roundtrip<io::XMLWriter, io::XMLReader>(g, ".xml", 1, 1, 1, 7, 6e-7, 1e-14, 0, 1); }, 40, 2000},
  {"surfaces", [](Rng &g) { roundtrip<io::XMLWriter, io::XMLReader>(g, ".xml", 2, 2, 1, 7, 6e-7, 1e-14, 0, 1); }, 30, 1500},
  {"mixed", [](Rng &g) { roundtrip<io::XMLWriter, io::XMLReader>(g, ".xml", 1, 4, 1, 7, 6e-7, 1e-14, 0, 0); }, 30, 1500}}); }
