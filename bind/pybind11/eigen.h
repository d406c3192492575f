#pragma once
#include "numpy.h"

#include <Eigen/Core>

namespace pybind11 {
namespace detail {

template <class T>
struct is_eigen_plain {
  template <class S, int R, int C, int O, int MR, int MC>
  static std::true_type t(const Eigen::Matrix<S, R, C, O, MR, MC>*);
  template <class S, int R, int C, int O, int MR, int MC>
  static std::true_type t(const Eigen::Array<S, R, C, O, MR, MC>*);
  static std::false_type t(...);
  static constexpr bool value = decltype(t(static_cast<T*>(nullptr)))::value;
};

template <class T>
struct default_caster<T, std::enable_if_t<is_eigen_plain<T>::value>> : value_caster<T> {
  using value_caster<T>::value;
  using Scalar = typename T::Scalar;
  static constexpr bool vec = T::IsVectorAtCompileTime;
  static constexpr bool row_major = T::IsRowMajor;
  static constexpr Eigen::Index R = T::RowsAtCompileTime, C = T::ColsAtCompileTime;
  static constexpr bool fr = R != Eigen::Dynamic, fc = C != Eigen::Dynamic;

  bool load(handle h, bool convert) {
    ensure_numpy();
    if (!h) return false;
    if (!convert && !array_t<Scalar>::check_(h)) return false;
    object buf = reinterpret_steal<object>(
        PyArray_FromAny(h.ptr(), nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr));
    if (!buf) {
      PyErr_Clear();
      return false;
    }
    auto* a = reinterpret_cast<PyArrayObject*>(buf.ptr());
    int nd = PyArray_NDIM(a);
    if (nd < 1 || nd > 2) return false;
    Eigen::Index rows, cols;
    if (nd == 2) {
      rows = PyArray_DIM(a, 0);
      cols = PyArray_DIM(a, 1);
      if ((fr && rows != R) || (fc && cols != C)) return false;
    } else {
      Eigen::Index n = PyArray_DIM(a, 0);
      if (vec) {
        if (fr && fc && R * C != n) return false;
        if (R == 1) {
          rows = 1;
          cols = n;
        } else {
          rows = n;
          cols = 1;
        }
      } else if (fr && fc) {
        return false;
      } else if (fc) {
        if (C != n) return false;
        rows = 1;
        cols = n;
      } else {
        if (fr && R != n) return false;
        rows = n;
        cols = 1;
      }
    }
    if constexpr (fr && fc) {
    } else {
      value.resize(rows, cols);
    }
    npy_intp dims[2] = {rows, cols};
    npy_intp st[2];
    st[0] = row_major ? cols * sizeof(Scalar) : sizeof(Scalar);
    st[1] = row_major ? sizeof(Scalar) : rows * sizeof(Scalar);
    npy_intp n1 = rows * cols, s1 = sizeof(Scalar);
    PyObject* ref;
    if (nd == 2)
      ref = PyArray_New(&PyArray_Type, 2, dims, npy_type<Scalar>::num, st, value.data(), 0,
                        NPY_ARRAY_WRITEABLE | NPY_ARRAY_ALIGNED, nullptr);
    else
      ref = PyArray_New(&PyArray_Type, 1, &n1, npy_type<Scalar>::num, &s1, value.data(), 0,
                        NPY_ARRAY_WRITEABLE | NPY_ARRAY_ALIGNED, nullptr);
    if (!ref) throw error_already_set();
    object rg = reinterpret_steal<object>(ref);
    if (n1 == 0) return true;
    if (PyArray_CopyInto(reinterpret_cast<PyArrayObject*>(ref), a) < 0) {
      PyErr_Clear();
      return false;
    }
    return true;
  }

  static handle wrap(const T& src, handle base, bool writeable) {
    ensure_numpy();
    npy_intp dims[2] = {src.rows(), src.cols()};
    npy_intp st[2];
    st[0] = (row_major ? src.cols() : 1) * sizeof(Scalar);
    st[1] = (row_major ? 1 : src.rows()) * sizeof(Scalar);
    npy_intp n1 = src.size(), s1 = sizeof(Scalar);
    int fl = NPY_ARRAY_ALIGNED | (writeable ? NPY_ARRAY_WRITEABLE : 0);
    void* data = const_cast<Scalar*>(src.data());
    static Scalar dummy[1] = {};
    if (!data) data = dummy;
    PyObject* o = vec ? PyArray_New(&PyArray_Type, 1, &n1, npy_type<Scalar>::num, &s1, data, 0, fl, nullptr)
                      : PyArray_New(&PyArray_Type, 2, dims, npy_type<Scalar>::num, st, data, 0, fl, nullptr);
    if (!o) throw error_already_set();
    PyArray_UpdateFlags(reinterpret_cast<PyArrayObject*>(o),
                        NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS);
    if (base) {
      base.inc_ref();
      PyArray_SetBaseObject(reinterpret_cast<PyArrayObject*>(o), base.ptr());
      return o;
    }
    PyObject* c = PyArray_NewCopy(reinterpret_cast<PyArrayObject*>(o), NPY_ANYORDER);
    Py_DECREF(o);
    if (!c) throw error_already_set();
    return c;
  }
  static void free_capsule(PyObject* c) { delete static_cast<T*>(PyCapsule_GetPointer(c, nullptr)); }
  static handle encapsulate(T* p) {
    object cap = reinterpret_steal<object>(PyCapsule_New(p, nullptr, &free_capsule));
    return wrap(*p, cap, true);
  }
  static handle cast_lvalue(const T& src, return_value_policy p, handle parent, bool writeable) {
    switch (p) {
      case return_value_policy::reference:
        return wrap(src, none(), writeable);
      case return_value_policy::reference_internal:
        return wrap(src, parent, writeable);
      case return_value_policy::move:
        return encapsulate(new T(src));
      default:
        return wrap(src, handle(), true);
    }
  }
  static handle cast(T&& src, return_value_policy, handle) { return encapsulate(new T(std::move(src))); }
  static handle cast(const T&& src, return_value_policy, handle) { return encapsulate(new T(src)); }
  static handle cast(T& src, return_value_policy p, handle parent) {
    return cast_lvalue(src, p, parent, true);
  }
  static handle cast(const T& src, return_value_policy p, handle parent) {
    return cast_lvalue(src, p, parent, false);
  }
  static handle cast(const T* src, return_value_policy p, handle parent) {
    if (!src) return none().release();
    if (p == return_value_policy::automatic || p == return_value_policy::take_ownership)
      return encapsulate(const_cast<T*>(src));
    if (p == return_value_policy::automatic_reference) p = return_value_policy::reference;
    return cast_lvalue(*src, p, parent, false);
  }
};

}  // namespace detail
}  // namespace pybind11
