// Translation unit handed to the AST exporter: the library's own headers and sources, with the templates instantiated.
#include "multi_index_handler.h"
#include "numeric_operations.h"
#include "vector_utils.h"
#include "control_point.cc"
#include "knot_vector.cc"
#include "basis_function.cc"
#include "zero_degree_b_spline_basis_function.cc"
#include "b_spline_basis_function.cc"
#include "basis_function_factory.cc"
#include "b_spline.h"
#include "nurbs.h"
#define VF_INST(d) \
  template class util::MultiIndexHandler<d>; \
  template class spl::ParameterSpace<d>; \
  template class spl::PhysicalSpace<d>; \
  template class spl::WeightedPhysicalSpace<d>; \
  template class spl::SplineGenerator<d>; \
  template class spl::BSplineGenerator<d>; \
  template class spl::NURBSGenerator<d>; \
  template class spl::Spline<d>; \
  template class spl::BSpline<d>; \
  template class spl::NURBS<d>;
VF_INST(1)
VF_INST(2)
VF_INST(3)
VF_INST(4)
template class util::VectorUtils<double>;
template class util::VectorUtils<int>;
