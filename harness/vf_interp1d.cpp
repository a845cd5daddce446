// Binding of the one-dimensional interpolators: the same object is used for
// several sets of points, as the windowed interpolators do.
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/pybind11.h>

#include <memory>
#include <string>

#include "pyinterp/detail/interpolation/factory_1d.hpp"

namespace py = pybind11;
namespace ip = pyinterp::detail::interpolation;

namespace {
template <typename T>
struct Curve {
  std::unique_ptr<ip::Interpolator1D<T>> ptr;
  explicit Curve(const std::string &kind) : ptr(ip::factory_1d<T>(kind)) {}
};
}  // namespace

void init_vf_interp1d(py::module &m) {
  using V = pyinterp::Vector<double>;
  using C = Curve<double>;
  py::class_<C>(m, "vf_curve")
      .def(py::init<const std::string &>())
      .def("value",
           [](C &s, const V &xa, const V &ya, const V &x) -> V {
             return (*s.ptr)(xa, ya, x);
           })
      .def("value_one",
           [](C &s, const V &xa, const V &ya, double x) -> double {
             return (*s.ptr)(xa, ya, x);
           })
      .def("slope",
           [](C &s, const V &xa, const V &ya, const V &x) -> V {
             return s.ptr->derivative(xa, ya, x);
           })
      .def("slope_one", [](C &s, const V &xa, const V &ya, double x) -> double {
        return s.ptr->derivative(xa, ya, x);
      });
}
