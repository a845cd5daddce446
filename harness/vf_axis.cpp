// Binding of detail::Axis window search, used by the windowed interpolators.
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include "pyinterp/detail/axis.hpp"

namespace py = pybind11;
using Axis = pyinterp::detail::Axis<double>;

void init_vf_axis(py::module &m) {
  m.def("vf_axis_window",
        [](const Eigen::VectorXd &values, bool circle, double coordinate,
           uint32_t size, int boundary) -> std::vector<int64_t> {
          auto axis = Axis(values, 1e-6, circle);
          return axis.find_indexes(
              coordinate, size,
              static_cast<pyinterp::axis::Boundary>(boundary));
        });
  m.attr("vf_expand") = static_cast<int>(pyinterp::axis::kExpand);
  m.attr("vf_wrap") = static_cast<int>(pyinterp::axis::kWrap);
  m.attr("vf_sym") = static_cast<int>(pyinterp::axis::kSym);
  m.attr("vf_undef") = static_cast<int>(pyinterp::axis::kUndef);
}
