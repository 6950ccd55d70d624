// Translation unit handed to the AST exporter: the library's own headers and sources, with the templates instantiated.
#include "multi_index_handler.h"
#include "numeric_operations.h"
#include "vector_utils.h"
#include "control_point.cc"
#include "knot_vector.cc"
#include "basis_function.cc"
#include "zero_degree_b_spline_basis_function.cc"
#include "b_spline_basis_function.cc"
#include "basis_function_factory.cc"
#include "b_spline.h"
#include "nurbs.h"
#define VF_INST(d) \
  template class util::MultiIndexHandler<d>; \
  template class spl::ParameterSpace<d>; \
  template class spl::PhysicalSpace<d>; \
  template class spl::WeightedPhysicalSpace<d>; \
  template class spl::SplineGenerator<d>; \
  template class spl::BSplineGenerator<d>; \
  template class spl::NURBSGenerator<d>; \
  template class spl::Spline<d>; \
  template class spl::BSpline<d>; \
  template class spl::NURBS<d>;
VF_INST(1)
VF_INST(2)
VF_INST(3)
VF_INST(4)
template class util::VectorUtils<double>;
template class util::VectorUtils<int>;
// Generators, random splines, elements and projections.
#include "random_b_spline_generator.h"
#include "random_nurbs_generator.h"
#include "square_generator.cc"
#include "surface_generator.cc"
#include "element_generator.h"
#include "projection.h"
#define VF_RAND(d) \
  template class spl::RandomSplineUtils<d>; \
  template class spl::RandomBSplineGenerator<d>; \
  template class spl::RandomNURBSGenerator<d>; \
  template class util::ElementGenerator<d>;
VF_RAND(1)
VF_RAND(2)
VF_RAND(3)
VF_RAND(4)
template int util::Random::GetBinomialRandom<int>(double, double, double);
template double util::Random::GetBinomialRandom<double>(double, double, double);
template double util::Random::GetUniformRandom<double>(double, double);
void vf_use() {
  spl::Projection<1>::ProjectionOnCurve({}, nullptr);
  spl::Projection<2>::ProjectionOnSurface({}, nullptr);
}
