// Readers, writers and the converter.
#include "knot_vector.cc"
#include "control_point.cc"
#include "basis_function.cc"
#include "zero_degree_b_spline_basis_function.cc"
#include "b_spline_basis_function.cc"
#include "basis_function_factory.cc"
#include "iges_reader.cc"
#include "iges_writer.cc"
#include "irit_reader.cc"
#include "irit_writer.cc"
#include "xml_reader.cc"
#include "xml_writer.cc"
#include "vtk_writer.cc"
#include "io_converter.cc"
#include "executables/converter_log.cc"
#define main main_iges_to_irit
#include "executables/iges_to_irit.cc"
#undef main
#define main main_iges_to_vtk
#include "executables/iges_to_vtk.cc"
#undef main
#define main main_iges_to_xml
#include "executables/iges_to_xml.cc"
#undef main
#define main main_irit_to_iges
#include "executables/irit_to_iges.cc"
#undef main
#define main main_irit_to_vtk
#include "executables/irit_to_vtk.cc"
#undef main
#define main main_irit_to_xml
#include "executables/irit_to_xml.cc"
#undef main
#define main main_xml_to_iges
#include "executables/xml_to_iges.cc"
#undef main
#define main main_xml_to_irit
#include "executables/xml_to_irit.cc"
#undef main
#define main main_xml_to_vtk
#include "executables/xml_to_vtk.cc"
#undef main
#define VF_INST(d) \
  template class util::MultiIndexHandler<d>; \
  template class spl::ParameterSpace<d>; \
  template class spl::PhysicalSpace<d>; \
  template class spl::WeightedPhysicalSpace<d>; \
  template class spl::SplineGenerator<d>; \
  template class spl::BSplineGenerator<d>; \
  template class spl::NURBSGenerator<d>; \
  template class spl::Spline<d>; \
  template class spl::BSpline<d>; \
  template class spl::NURBS<d>;
VF_INST(1)
VF_INST(2)
VF_INST(3)
VF_INST(4)
template class util::VectorUtils<double>;
template class util::VectorUtils<int>;
template class io::VTKWriterUtils<1>;
template class io::VTKWriterUtils<2>;
template class io::VTKWriterUtils<3>;
