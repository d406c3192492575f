#pragma once
#include "pybind11.h"

#ifndef NPY_NO_DEPRECATED_API
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#endif
#include <numpy/arrayobject.h>

namespace pybind11 {
namespace detail {
static inline void ensure_numpy() {
  if (!PyArray_API) {
    if (_import_array() < 0) throw error_already_set();
  }
}

template <class T, class = void>
struct npy_type;
#define MINIPB_NPY(T, N)            \
  template <>                       \
  struct npy_type<T> {              \
    static constexpr int num = N;   \
  };
MINIPB_NPY(bool, NPY_BOOL)
MINIPB_NPY(signed char, NPY_BYTE)
MINIPB_NPY(unsigned char, NPY_UBYTE)
MINIPB_NPY(short, NPY_SHORT)
MINIPB_NPY(unsigned short, NPY_USHORT)
MINIPB_NPY(int, NPY_INT)
MINIPB_NPY(unsigned int, NPY_UINT)
MINIPB_NPY(long, NPY_LONG)
MINIPB_NPY(unsigned long, NPY_ULONG)
MINIPB_NPY(long long, NPY_LONGLONG)
MINIPB_NPY(unsigned long long, NPY_ULONGLONG)
MINIPB_NPY(float, NPY_FLOAT)
MINIPB_NPY(double, NPY_DOUBLE)
}  // namespace detail

class array : public object {
 public:
  enum { c_style = 1, f_style = 2, forcecast = 16 };
  array() = default;
  array(handle h, borrowed_t) : object(h, borrowed_t()) {}
  array(handle h, stolen_t) : object(h, stolen_t()) {}
  static bool check_(handle h) {
    detail::ensure_numpy();
    return h && PyArray_Check(h.ptr());
  }
  PyArrayObject* arr() const { return reinterpret_cast<PyArrayObject*>(m_ptr); }
  ssize_t size() const {
    ssize_t n = 1;
    for (int i = 0; i < PyArray_NDIM(arr()); ++i) n *= PyArray_DIM(arr(), i);
    return n;
  }
  ssize_t ndim() const { return PyArray_NDIM(arr()); }
  ssize_t shape(ssize_t i) const {
    if (i >= ndim()) throw index_error("invalid axis");
    return PyArray_DIM(arr(), (int)i);
  }
  const ssize_t* shape() const { return PyArray_DIMS(arr()); }
  bool writeable() const { return PyArray_ISWRITEABLE(arr()); }
};

template <class T, int Flags = array::forcecast>
class array_t : public array {
 public:
  array_t() : array_t(std::vector<ssize_t>{0}) {}
  array_t(handle h, borrowed_t) : array(h, borrowed_t()) {}
  array_t(handle h, stolen_t) : array(h, stolen_t()) {}
  explicit array_t(size_t n) : array_t(std::vector<ssize_t>{(ssize_t)n}) {}
  array_t(std::initializer_list<size_t> s) : array_t(std::vector<ssize_t>(s.begin(), s.end())) {}
  explicit array_t(std::vector<ssize_t> shape, const T* ptr = nullptr) {
    detail::ensure_numpy();
    m_ptr = PyArray_SimpleNew((int)shape.size(), (npy_intp*)shape.data(),
                              detail::npy_type<T>::num);
    if (!m_ptr) throw error_already_set();
    if (ptr) std::memcpy(PyArray_DATA(arr()), ptr, sizeof(T) * size());
  }
  array_t(const object& o) : array(ensure(o).release(), stolen_t()) {
    if (!m_ptr) throw type_error("cannot convert to array");
  }
  const T* data() const { return static_cast<const T*>(PyArray_DATA(arr())); }
  T* mutable_data() {
    if (!writeable()) throw std::domain_error("array is not writeable");
    return static_cast<T*>(PyArray_DATA(arr()));
  }
  static bool check_(handle h) {
    detail::ensure_numpy();
    if (!h || !PyArray_Check(h.ptr())) return false;
    auto* a = reinterpret_cast<PyArrayObject*>(h.ptr());
    object d = reinterpret_steal<object>(
        reinterpret_cast<PyObject*>(PyArray_DescrFromType(detail::npy_type<T>::num)));
    if (!PyArray_EquivTypes(PyArray_DESCR(a), reinterpret_cast<PyArray_Descr*>(d.ptr()))) return false;
    if ((Flags & array::c_style) && !PyArray_IS_C_CONTIGUOUS(a)) return false;
    return true;
  }
  static object ensure(handle h) {
    detail::ensure_numpy();
    int fl = NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_ALIGNED;
    if (Flags & array::c_style) fl |= NPY_ARRAY_C_CONTIGUOUS;
    if (Flags & array::forcecast) fl |= NPY_ARRAY_FORCECAST;
    PyObject* r = PyArray_FromAny(h.ptr(), PyArray_DescrFromType(detail::npy_type<T>::num), 0, 0, fl, nullptr);
    if (!r) PyErr_Clear();
    return reinterpret_steal<object>(r);
  }
};

namespace detail {
template <class T, int F>
struct type_caster<array_t<T, F>> {
  array_t<T, F> value{handle(), stolen_t()};
  bool load(handle h, bool convert) {
    if (!convert && !array_t<T, F>::check_(h)) return false;
    object o = array_t<T, F>::ensure(h);
    if (!o) return false;
    value = array_t<T, F>(o.release(), stolen_t());
    return true;
  }
  template <class A>
  A get() {
    if constexpr (std::is_lvalue_reference<A>::value)
      return value;
    else if constexpr (std::is_rvalue_reference<A>::value)
      return std::move(value);
    else
      return value;
  }
  static handle cast(const handle& h, return_value_policy, handle) { return h.inc_ref(); }
};
}  // namespace detail
}  // namespace pybind11
