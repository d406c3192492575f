// A small, self-contained stand-in for the subset of pybind11 that OpenSfM's
// bindings use.  It is written from the documented behaviour of pybind11 (no
// pybind11 sources were available in the sandbox) and exists only so that the
// repository's own */python/pybind.cc files compile unmodified and the real
// C++ code can be driven from Python.
#pragma once

#ifndef PY_SSIZE_T_CLEAN
#define PY_SSIZE_T_CLEAN
#endif
#include <Python.h>
#include <structmember.h>

#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_NAMESPACE_BEGIN(name) namespace name {
#define PYBIND11_NAMESPACE_END(name) }
#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 13

namespace pybind11 {

using ssize_t = Py_ssize_t;

enum class return_value_policy : uint8_t {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};

// ----------------------------------------------------------------- exceptions
class cast_error : public std::runtime_error {
 public:
  using std::runtime_error::runtime_error;
};
class reference_cast_error : public cast_error {
 public:
  reference_cast_error() : cast_error("null reference") {}
};
class stop_iteration : public std::runtime_error {
 public:
  explicit stop_iteration(const char* s = "") : std::runtime_error(s) {}
};
class value_error : public std::runtime_error {
 public:
  using std::runtime_error::runtime_error;
};
class key_error : public std::runtime_error {
 public:
  using std::runtime_error::runtime_error;
};
class index_error : public std::runtime_error {
 public:
  using std::runtime_error::runtime_error;
};
class type_error : public std::runtime_error {
 public:
  using std::runtime_error::runtime_error;
};

class error_already_set : public std::exception {
 public:
  error_already_set() : exc_(PyErr_GetRaisedException(), &del) {}
  void restore() const {
    PyObject* e = exc_.get();
    Py_XINCREF(e);
    PyErr_SetRaisedException(e);
  }
  const char* what() const noexcept override { return "Python error"; }

 private:
  static void del(PyObject* p) {
    if (p && Py_IsInitialized()) {
      PyGILState_STATE st = PyGILState_Ensure();
      Py_DECREF(p);
      PyGILState_Release(st);
    }
  }
  std::shared_ptr<PyObject> exc_;
};

// -------------------------------------------------------------------- handles
class object;
class str;
class iterator;
namespace detail {
class accessor;
}

class handle {
 public:
  handle() = default;
  handle(std::nullptr_t) {}
  handle(PyObject* p) : m_ptr(p) {}
  PyObject* ptr() const { return m_ptr; }
  PyObject*& ptr() { return m_ptr; }
  const handle& inc_ref() const {
    Py_XINCREF(m_ptr);
    return *this;
  }
  const handle& dec_ref() const {
    Py_XDECREF(m_ptr);
    return *this;
  }
  explicit operator bool() const { return m_ptr != nullptr; }
  bool is_none() const { return m_ptr == Py_None; }
  bool is(handle o) const { return m_ptr == o.m_ptr; }
  bool operator==(const handle& h) const { return m_ptr == h.m_ptr; }
  bool operator!=(const handle& h) const { return m_ptr != h.m_ptr; }
  template <class T>
  T cast() const;
  detail::accessor attr(const char* name) const;
  detail::accessor operator[](const char* key) const;
  detail::accessor operator[](handle key) const;
  detail::accessor operator[](const std::string& key) const;
  template <class... A>
  object operator()(A&&... a) const;
  iterator begin() const;
  iterator end() const;
  bool contains(const char* k) const;
  template <class T>
  bool contains(const T& k) const;

 protected:
  PyObject* m_ptr = nullptr;
};

struct borrowed_t {};
struct stolen_t {};

class object : public handle {
 public:
  object() = default;
  object(handle h, borrowed_t) : handle(h) { inc_ref(); }
  object(handle h, stolen_t) : handle(h) {}
  object(const object& o) : handle(o) { inc_ref(); }
  object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
  ~object() { dec_ref(); }
  object& operator=(const object& o) {
    if (this != &o) {
      o.inc_ref();
      PyObject* old = m_ptr;
      m_ptr = o.m_ptr;
      Py_XDECREF(old);
    }
    return *this;
  }
  object& operator=(object&& o) noexcept {
    if (this != &o) {
      PyObject* old = m_ptr;
      m_ptr = o.m_ptr;
      o.m_ptr = nullptr;
      Py_XDECREF(old);
    }
    return *this;
  }
  handle release() {
    PyObject* t = m_ptr;
    m_ptr = nullptr;
    return handle(t);
  }
  static bool check_(handle h) { return h.ptr() != nullptr; }
};

template <class T>
T reinterpret_borrow(handle h) {
  return T(h, borrowed_t());
}
template <class T>
T reinterpret_steal(handle h) {
  return T(h, stolen_t());
}

#define MINIPB_OBJECT(Name, Parent, Check)                      \
 public:                                                        \
  Name(handle h, borrowed_t) : Parent(h, borrowed_t()) {}       \
  Name(handle h, stolen_t) : Parent(h, stolen_t()) {}           \
  Name(const Name&) = default;                                  \
  Name(Name&&) = default;                                       \
  Name& operator=(const Name&) = default;                       \
  Name& operator=(Name&&) = default;                            \
  static bool check_(handle h) { return h.ptr() && Check(h.ptr()); }

#define MINIPB_OBJECT_CVT(Name, Parent, Check, Conv)            \
  MINIPB_OBJECT(Name, Parent, Check)                            \
  Name(const object& o)                                         \
      : Parent(Check(o.ptr()) ? o.inc_ref().ptr() : Conv(o.ptr()), stolen_t()) { \
    if (!m_ptr) throw error_already_set();                      \
  }

inline int minipb_is_none(PyObject* o) { return o == Py_None; }

class none : public object {
  MINIPB_OBJECT(none, object, minipb_is_none)
  none() : object(handle(Py_None), borrowed_t()) {}
};

class bytes : public object {
  MINIPB_OBJECT(bytes, object, PyBytes_Check)
  bytes(const char* s, size_t n)
      : object(handle(PyBytes_FromStringAndSize(s, n)), stolen_t()) {}
  bytes(const std::string& s) : bytes(s.data(), s.size()) {}
};

class str : public object {
  MINIPB_OBJECT_CVT(str, object, PyUnicode_Check, PyObject_Str)
  str(const char* s = "")
      : object(handle(PyUnicode_FromString(s)), stolen_t()) {
    if (!m_ptr) throw error_already_set();
  }
  str(const std::string& s)
      : object(handle(PyUnicode_FromStringAndSize(s.data(), s.size())), stolen_t()) {
    if (!m_ptr) throw error_already_set();
  }
  operator std::string() const {
    Py_ssize_t n;
    const char* s = PyUnicode_AsUTF8AndSize(m_ptr, &n);
    if (!s) throw error_already_set();
    return std::string(s, n);
  }
};

class int_ : public object {
  MINIPB_OBJECT_CVT(int_, object, PyLong_Check, PyNumber_Long)
  template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0>
  int_(T v) : object(handle(PyLong_FromLongLong((long long)v)), stolen_t()) {}
};
class float_ : public object {
  MINIPB_OBJECT_CVT(float_, object, PyFloat_Check, PyNumber_Float)
  float_(double v) : object(handle(PyFloat_FromDouble(v)), stolen_t()) {}
};
class bool_ : public object {
  MINIPB_OBJECT(bool_, object, PyBool_Check)
  bool_(bool v) : object(handle(v ? Py_True : Py_False), borrowed_t()) {}
};

class tuple : public object {
  MINIPB_OBJECT_CVT(tuple, object, PyTuple_Check, PySequence_Tuple)
  explicit tuple(size_t n = 0) : object(handle(PyTuple_New(n)), stolen_t()) {
    if (!m_ptr) throw error_already_set();
  }
  size_t size() const { return PyTuple_Size(m_ptr); }
  bool empty() const { return size() == 0; }
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0>
  object operator[](I i) const {
    PyObject* o = PyTuple_GetItem(m_ptr, (Py_ssize_t)i);
    if (!o) throw error_already_set();
    return object(handle(o), borrowed_t());
  }
};

class list : public object {
  MINIPB_OBJECT_CVT(list, object, PyList_Check, PySequence_List)
  explicit list(size_t n = 0) : object(handle(PyList_New(n)), stolen_t()) {
    if (!m_ptr) throw error_already_set();
  }
  size_t size() const { return PyList_Size(m_ptr); }
  bool empty() const { return size() == 0; }
  template <class T>
  void append(T&& v);
  template <class I, std::enable_if_t<std::is_integral<I>::value, int> = 0>
  object operator[](I i) const {
    PyObject* o = PyList_GetItem(m_ptr, (Py_ssize_t)i);
    if (!o) throw error_already_set();
    return object(handle(o), borrowed_t());
  }
};

class dict : public object {
  MINIPB_OBJECT(dict, object, PyDict_Check)
  dict() : object(handle(PyDict_New()), stolen_t()) {}
  dict(const object& o) : object(o) {
    if (!PyDict_Check(o.ptr())) throw type_error("dict expected");
  }
  size_t size() const { return PyDict_Size(m_ptr); }
  bool empty() const { return size() == 0; }
};

inline int minipb_iter_check(PyObject* o) { return PyIter_Check(o); }
class iterator : public object {
  MINIPB_OBJECT(iterator, object, minipb_iter_check)
  iterator() = default;
  iterator(const object& o) : object(o) {
    if (!o || !PyIter_Check(o.ptr())) throw type_error("iterator expected");
  }
  using difference_type = ssize_t;
  using value_type = handle;
  using reference = handle;
  using pointer = const handle*;
  using iterator_category = std::input_iterator_tag;
  iterator& operator++() {
    advance();
    return *this;
  }
  handle operator*() const {
    if (m_ptr && !val_.ptr()) const_cast<iterator*>(this)->advance();
    return val_;
  }
  friend bool operator==(const iterator& a, const iterator& b) {
    return (*a).ptr() == (*b).ptr();
  }
  friend bool operator!=(const iterator& a, const iterator& b) {
    return !(a == b);
  }

 private:
  void advance() {
    val_ = object(handle(PyIter_Next(m_ptr)), stolen_t());
    if (!val_.ptr() && PyErr_Occurred()) throw error_already_set();
  }
  object val_;
};

class module_ : public object {
  MINIPB_OBJECT(module_, object, PyModule_Check)
  module_() = default;
  static module_ import(const char* name) {
    PyObject* m = PyImport_ImportModule(name);
    if (!m) throw error_already_set();
    return module_(handle(m), stolen_t());
  }
  template <class F, class... Extra>
  module_& def(const char* name, F&& f, const Extra&... extra);
  detail::accessor doc();
};
using module = module_;

template <class T>
bool isinstance(handle h) {
  return T::check_(h);
}

inline size_t len(handle h) {
  Py_ssize_t n = PyObject_Length(h.ptr());
  if (n < 0) throw error_already_set();
  return (size_t)n;
}

inline iterator iter(handle h) {
  PyObject* r = PyObject_GetIter(h.ptr());
  if (!r) throw error_already_set();
  return iterator(handle(r), stolen_t());
}
inline iterator handle::begin() const { return iter(*this); }
inline iterator handle::end() const { return iterator(); }
inline bool handle::contains(const char* k) const {
  int r = PySequence_Contains(m_ptr, str(k).ptr());
  if (r < 0) throw error_already_set();
  return r;
}

class gil_scoped_release {
 public:
  gil_scoped_release() : st_(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(st_); }
  gil_scoped_release(const gil_scoped_release&) = delete;

 private:
  PyThreadState* st_;
};
class gil_scoped_acquire {
 public:
  gil_scoped_acquire() : st_(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(st_); }
  gil_scoped_acquire(const gil_scoped_acquire&) = delete;

 private:
  PyGILState_STATE st_;
};

template <class... A>
struct call_guard {};
template <size_t Nurse, size_t Patient>
struct keep_alive {};
struct module_local {
  constexpr module_local(bool = true) {}
};
struct dynamic_attr {};
struct is_operator {};
struct arithmetic {};
struct const_tag {};
static constexpr auto const_ = std::true_type();

template <class... A>
struct overload_cast_impl {
  template <class R>
  constexpr auto operator()(R (*pf)(A...)) const -> R (*)(A...) {
    return pf;
  }
  template <class R, class C>
  constexpr auto operator()(R (C::*pmf)(A...), std::false_type = {}) const
      -> R (C::*)(A...) {
    return pmf;
  }
  template <class R, class C>
  constexpr auto operator()(R (C::*pmf)(A...) const, std::true_type) const
      -> R (C::*)(A...) const {
    return pmf;
  }
};
template <class... A>
static constexpr overload_cast_impl<A...> overload_cast{};

// ------------------------------------------------------------------ internals
namespace detail {

struct instance;

struct type_record {
  PyTypeObject* type = nullptr;
  std::string cpp_name;
  std::string qualname;
  void (*destroy)(void*) = nullptr;
};

using copy_fn = void* (*)(const void*);
using move_fn = void* (*)(void*);

struct instance {
  PyObject_HEAD void* value;
  bool owned;
  bool registered;
  const type_record* rec;
  PyObject* weakrefs;
  PyObject* patients;  // list or NULL
};

struct internals {
  std::unordered_map<std::string, type_record*> by_cpp;
  std::unordered_map<PyTypeObject*, type_record*> by_py;
  std::unordered_multimap<const void*, instance*> instances;
};

inline internals& get_internals() {
  static internals* p = nullptr;
  if (p) return *p;
  PyObject* builtins = PyEval_GetBuiltins();  // borrowed
  const char* key = "__minipb_internals__";
  PyObject* cap = PyDict_GetItemString(builtins, key);
  if (cap) {
    p = static_cast<internals*>(PyCapsule_GetPointer(cap, nullptr));
  } else {
    p = new internals();
    PyObject* c = PyCapsule_New(p, nullptr, nullptr);
    PyDict_SetItemString(builtins, key, c);
    Py_DECREF(c);
  }
  return *p;
}

inline type_record* get_type_info(const std::type_info& ti, bool throw_if_missing = false) {
  auto& m = get_internals().by_cpp;
  auto it = m.find(ti.name());
  if (it != m.end()) return it->second;
  if (throw_if_missing)
    throw cast_error(std::string("unregistered type ") + ti.name());
  return nullptr;
}

inline type_record* get_type_info(PyTypeObject* t) {
  auto& m = get_internals().by_py;
  for (; t; t = t->tp_base) {
    auto it = m.find(t);
    if (it != m.end()) return it->second;
  }
  return nullptr;
}

inline void register_instance(instance* i) {
  get_internals().instances.emplace(i->value, i);
  i->registered = true;
}
inline void deregister_instance(instance* i) {
  if (!i->registered) return;
  auto& m = get_internals().instances;
  auto r = m.equal_range(i->value);
  for (auto it = r.first; it != r.second; ++it)
    if (it->second == i) {
      m.erase(it);
      break;
    }
  i->registered = false;
}

inline PyObject* minipb_tp_new(PyTypeObject* t, PyObject*, PyObject*) {
  PyObject* self = t->tp_alloc(t, 0);
  if (!self) return nullptr;
  auto* i = reinterpret_cast<instance*>(self);
  i->value = nullptr;
  i->owned = false;
  i->registered = false;
  i->rec = get_type_info(t);
  i->weakrefs = nullptr;
  i->patients = nullptr;
  return self;
}

inline int minipb_tp_init(PyObject* self, PyObject*, PyObject*) {
  PyErr_Format(PyExc_TypeError, "%s: No constructor defined!",
               Py_TYPE(self)->tp_name);
  return -1;
}

inline void minipb_tp_dealloc(PyObject* self) {
  auto* i = reinterpret_cast<instance*>(self);
  PyTypeObject* t = Py_TYPE(self);
  PyObject* exc = PyErr_GetRaisedException();
  if (i->weakrefs) PyObject_ClearWeakRefs(self);
  deregister_instance(i);
  if (i->value && i->owned) i->rec->destroy(i->value);
  i->value = nullptr;
  PyObject* p = i->patients;
  i->patients = nullptr;
  Py_XDECREF(p);
  PyErr_SetRaisedException(exc);
  t->tp_free(self);
  Py_DECREF(t);
}

inline void keep_alive_impl(handle nurse, handle patient) {
  if (!nurse || !patient) throw cast_error("Could not activate keep_alive!");
  if (nurse.is_none() || patient.is_none()) return;
  if (!get_type_info(Py_TYPE(nurse.ptr()))) {
    // Non-instance nurse: nothing to attach to; leak one reference.
    patient.inc_ref();
    return;
  }
  auto* i = reinterpret_cast<instance*>(nurse.ptr());
  if (!i->patients) i->patients = PyList_New(0);
  PyList_Append(i->patients, patient.ptr());
}

inline PyObject* find_registered(const void* src, const type_record* rec) {
  auto r = get_internals().instances.equal_range(src);
  for (auto it = r.first; it != r.second; ++it)
    if (it->second->rec == rec) return reinterpret_cast<PyObject*>(it->second);
  return nullptr;
}

inline handle generic_cast(const void* csrc, return_value_policy policy,
                           handle parent, const type_record* rec,
                           const std::type_info& ti, copy_fn copy,
                           move_fn move) {
  if (!rec) {
    std::string msg = std::string("Unregistered type : ") + ti.name();
    PyErr_SetString(PyExc_TypeError, msg.c_str());
    return handle();
  }
  if (!csrc) return none().release();
  void* src = const_cast<void*>(csrc);
  if (PyObject* o = find_registered(src, rec)) {
    Py_INCREF(o);
    return handle(o);
  }
  PyObject* self = minipb_tp_new(rec->type, nullptr, nullptr);
  if (!self) throw error_already_set();
  auto* i = reinterpret_cast<instance*>(self);
  i->rec = rec;
  switch (policy) {
    case return_value_policy::automatic:
    case return_value_policy::take_ownership:
      i->value = src;
      i->owned = true;
      break;
    case return_value_policy::automatic_reference:
    case return_value_policy::reference:
      i->value = src;
      i->owned = false;
      break;
    case return_value_policy::copy:
      if (!copy) {
        Py_DECREF(self);
        throw cast_error("return_value_policy = copy, but type is non-copyable! " + rec->qualname);
      }
      i->value = copy(src);
      i->owned = true;
      break;
    case return_value_policy::move:
      if (move)
        i->value = move(src);
      else if (copy)
        i->value = copy(src);
      else {
        Py_DECREF(self);
        throw cast_error("return_value_policy = move, but type is neither movable nor copyable! " + rec->qualname);
      }
      i->owned = true;
      break;
    case return_value_policy::reference_internal:
      i->value = src;
      i->owned = false;
      keep_alive_impl(handle(self), parent);
      break;
  }
  register_instance(i);
  return handle(self);
}

// -------------------------------------------------------------------- casters
template <class T>
using intrinsic_t = std::remove_cv_t<std::remove_pointer_t<
    std::remove_cv_t<std::remove_reference_t<T>>>>;

template <class T, class = void>
struct copier {
  static constexpr void* (*fn)(const void*) = nullptr;
};
template <class T>
struct is_container_noncopy : std::false_type {};
template <class T>
struct copier<T, std::enable_if_t<std::is_copy_constructible<T>::value>> {
  static void* fn(const void* p) { return new T(*static_cast<const T*>(p)); }
};
template <class T, class = void>
struct mover {
  static constexpr void* (*fn)(void*) = nullptr;
};
template <class T>
struct mover<T, std::enable_if_t<std::is_move_constructible<T>::value>> {
  static void* fn(void* p) { return new T(std::move(*static_cast<T*>(p))); }
};
struct generic_caster_tag {};

template <class T>
struct class_caster : generic_caster_tag {
  T* value = nullptr;

  bool load(handle h, bool convert) {
    if (!h) return false;
    if (h.is_none()) {
      if (!convert) return false;
      value = nullptr;
      return true;
    }
    type_record* want = get_type_info(typeid(T));
    if (!want) return false;
    if (!PyObject_TypeCheck(h.ptr(), want->type)) return false;
    auto* i = reinterpret_cast<instance*>(h.ptr());
    if (!i->value) {
      throw type_error(std::string(want->qualname) +
                       ".__init__() must be called when overriding __init__");
    }
    value = static_cast<T*>(i->value);
    return true;
  }

  template <class A>
  A get() {
    if constexpr (std::is_pointer<std::remove_reference_t<A>>::value) {
      return value;
    } else {
      if (!value) throw reference_cast_error();
      if constexpr (std::is_rvalue_reference<A>::value)
        return std::move(*value);
      else
        return *value;
    }
  }

  static handle cast(const T& src, return_value_policy p, handle parent) {
    if (p == return_value_policy::automatic ||
        p == return_value_policy::automatic_reference)
      p = return_value_policy::copy;
    return generic_cast(&src, p, parent, get_type_info(typeid(T)), typeid(T),
                        copier<T>::fn, mover<T>::fn);
  }
  static handle cast(T&& src, return_value_policy, handle parent) {
    return generic_cast(&src, return_value_policy::move, parent,
                        get_type_info(typeid(T)), typeid(T), nullptr, mover<T>::fn);
  }
  static handle cast(const T* src, return_value_policy p, handle parent) {
    return generic_cast(src, p, parent, get_type_info(typeid(T)), typeid(T),
                        copier<T>::fn, mover<T>::fn);
  }
};

template <class T, class SFINAE = void>
struct default_caster : class_caster<T> {};

// The public customisation point (OpenSfM specialises it explicitly).
template <class T>
struct type_caster : default_caster<T> {};

template <class T>
using make_caster = type_caster<intrinsic_t<T>>;

template <class A, class C>
decltype(auto) cast_op(C& c) {
  if constexpr (std::is_pointer<std::remove_reference_t<A>>::value)
    return c.template get<std::remove_cv_t<std::remove_reference_t<A>>>();
  else if constexpr (std::is_base_of<generic_caster_tag, C>::value && std::is_rvalue_reference<A>::value)
    // Objects owned by Python are never moved from.
    return c.template get<std::remove_reference_t<A>&>();
  else
    return c.template get<A>();
}

template <class Ret>
return_value_policy policy_override(return_value_policy p) {
  if constexpr (std::is_base_of<generic_caster_tag, make_caster<Ret>>::value &&
                !std::is_lvalue_reference<Ret>::value &&
                !std::is_pointer<std::remove_reference_t<Ret>>::value)
    return return_value_policy::move;
  else
    return p;
}

// Base for casters which hold their value.
template <class T>
struct value_caster {
  T value{};
  template <class A>
  A get() {
    if constexpr (std::is_pointer<std::remove_reference_t<A>>::value)
      return &value;
    else if constexpr (std::is_lvalue_reference<A>::value)
      return value;
    else if constexpr (std::is_rvalue_reference<A>::value)
      return std::move(value);
    else
      return std::move(value);
  }
};

#define MINIPB_PTR_CAST(T)                                              \
  static handle cast(const T* src, return_value_policy p, handle parent) { \
    if (!src) return none().release();                                  \
    return cast(*src, p, parent);                                       \
  }

// bool
template <>
struct default_caster<bool> : value_caster<bool> {
  bool load(handle h, bool convert) {
    if (h.ptr() == Py_True) {
      value = true;
      return true;
    }
    if (h.ptr() == Py_False) {
      value = false;
      return true;
    }
    const char* tn = Py_TYPE(h.ptr())->tp_name;
    bool npbool = !std::strcmp(tn, "numpy.bool_") || !std::strcmp(tn, "numpy.bool");
    if (convert || npbool) {
      Py_ssize_t res = -1;
      if (h.is_none())
        res = 0;
      else if (auto* nb = Py_TYPE(h.ptr())->tp_as_number) {
        if (nb->nb_bool) res = nb->nb_bool(h.ptr());
      }
      if (res == 0 || res == 1) {
        value = res != 0;
        return true;
      }
      PyErr_Clear();
    }
    return false;
  }
  static handle cast(bool v, return_value_policy, handle) {
    return handle(v ? Py_True : Py_False).inc_ref();
  }
  MINIPB_PTR_CAST(bool)
};

template <class T>
struct is_char_like : std::integral_constant<bool, std::is_same<T, char>::value> {};

template <class T>
struct default_caster<
    T, std::enable_if_t<std::is_arithmetic<T>::value && !is_char_like<T>::value &&
                        !std::is_same<T, bool>::value>> : value_caster<T> {
  using value_caster<T>::value;
  bool load(handle h, bool convert) {
    if (!h) return false;
    if constexpr (std::is_floating_point<T>::value) {
      if (!convert && !PyFloat_Check(h.ptr())) return false;
      double d = PyFloat_AsDouble(h.ptr());
      if (d == -1.0 && PyErr_Occurred()) {
        bool te = PyErr_ExceptionMatches(PyExc_TypeError);
        PyErr_Clear();
        if (te && convert && PyNumber_Check(h.ptr())) {
          object t = reinterpret_steal<object>(PyNumber_Float(h.ptr()));
          PyErr_Clear();
          return t && load(t, false);
        }
        return false;
      }
      value = static_cast<T>(d);
      return true;
    } else {
      if (PyFloat_Check(h.ptr())) return false;
      if (!convert && !PyLong_Check(h.ptr()) && !PyIndex_Check(h.ptr())) return false;
      object idx;
      handle src = h;
      if (!PyLong_Check(h.ptr())) {
        idx = reinterpret_steal<object>(PyNumber_Index(h.ptr()));
        if (!idx) {
          PyErr_Clear();
          if (!convert) return false;
          if (!PyNumber_Check(h.ptr())) return false;
          idx = reinterpret_steal<object>(PyNumber_Long(h.ptr()));
          if (!idx) {
            PyErr_Clear();
            return false;
          }
        }
        src = idx;
      }
      if constexpr (std::is_unsigned<T>::value) {
        unsigned long long v = PyLong_AsUnsignedLongLong(src.ptr());
        if (v == (unsigned long long)-1 && PyErr_Occurred()) {
          PyErr_Clear();
          return false;
        }
        if ((unsigned long long)(T)v != v) return false;
        value = (T)v;
      } else {
        long long v = PyLong_AsLongLong(src.ptr());
        if (v == -1 && PyErr_Occurred()) {
          PyErr_Clear();
          return false;
        }
        if ((long long)(T)v != v) return false;
        value = (T)v;
      }
      return true;
    }
  }
  static handle cast(T v, return_value_policy, handle) {
    if constexpr (std::is_floating_point<T>::value)
      return PyFloat_FromDouble((double)v);
    else if constexpr (std::is_unsigned<T>::value)
      return PyLong_FromUnsignedLongLong((unsigned long long)v);
    else
      return PyLong_FromLongLong((long long)v);
  }
  MINIPB_PTR_CAST(T)
};

template <>
struct default_caster<std::string> : value_caster<std::string> {
  bool load(handle h, bool) {
    if (!h) return false;
    if (PyUnicode_Check(h.ptr())) {
      Py_ssize_t n;
      const char* s = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
      if (!s) {
        PyErr_Clear();
        return false;
      }
      value.assign(s, n);
      return true;
    }
    if (PyBytes_Check(h.ptr())) {
      value.assign(PyBytes_AsString(h.ptr()), PyBytes_Size(h.ptr()));
      return true;
    }
    return false;
  }
  static handle cast(const std::string& s, return_value_policy, handle) {
    PyObject* o = PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr);
    if (!o) throw error_already_set();
    return o;
  }
  MINIPB_PTR_CAST(std::string)
};

template <>
struct default_caster<char> {
  default_caster<std::string> inner;
  bool is_none = false;
  bool load(handle h, bool c) {
    if (h.is_none()) {
      if (!c) return false;
      is_none = true;
      return true;
    }
    return inner.load(h, c);
  }
  template <class A>
  A get() {
    if constexpr (std::is_pointer<std::remove_reference_t<A>>::value)
      return is_none ? nullptr : inner.value.c_str();
    else
      return inner.value.empty() ? 0 : inner.value[0];
  }
  static handle cast(const char* s, return_value_policy p, handle h) {
    if (!s) return none().release();
    return default_caster<std::string>::cast(std::string(s), p, h);
  }
  static handle cast(char c, return_value_policy p, handle h) {
    return default_caster<std::string>::cast(std::string(1, c), p, h);
  }
};

// Python object types
template <class T>
struct default_caster<T, std::enable_if_t<std::is_base_of<handle, T>::value>> {
  T value;
  default_caster() : value(make()) {}
  static T make() {
    if constexpr (std::is_same<T, handle>::value || std::is_same<T, object>::value)
      return T();
    else
      return T(handle(), stolen_t());
  }
  bool load(handle h, bool) {
    if constexpr (std::is_same<T, handle>::value) {
      value = h;
      return (bool)h;
    } else {
      if (!T::check_(h)) return false;
      value = T(h, borrowed_t());
      return true;
    }
  }
  template <class A>
  A get() {
    if constexpr (std::is_lvalue_reference<A>::value)
      return value;
    else if constexpr (std::is_rvalue_reference<A>::value)
      return std::move(value);
    else
      return value;
  }
  static handle cast(const handle& h, return_value_policy, handle) {
    return h.inc_ref();
  }
};

template <>
struct default_caster<void> {
  static handle cast(const void*, return_value_policy, handle) {
    return none().release();
  }
};

// raw instance (constructors)
struct value_and_holder {
  instance* inst = nullptr;
};
template <>
struct default_caster<value_and_holder> {
  value_and_holder value;
  bool load(handle h, bool) {
    if (!h || !get_type_info(Py_TYPE(h.ptr()))) return false;
    value.inst = reinterpret_cast<instance*>(h.ptr());
    return true;
  }
  template <class A>
  A get() {
    return value;
  }
};

template <class V>
struct default_caster<std::optional<V>> : value_caster<std::optional<V>> {
  using value_caster<std::optional<V>>::value;
  bool load(handle h, bool convert) {
    if (!h) return false;
    if (h.is_none()) return true;
    make_caster<V> c;
    if (!c.load(h, convert)) return false;
    value.emplace(cast_op<V&&>(c));
    return true;
  }
  template <class T>
  static handle cast(T&& src, return_value_policy p, handle parent) {
    if constexpr (std::is_pointer<std::decay_t<T>>::value) {
      if (!src) return none().release();
      return cast(*src, p, parent);
    } else {
      if (!src) return none().release();
      if (!std::is_lvalue_reference<T>::value) p = policy_override<V>(p);
      return make_caster<V>::cast(*std::forward<T>(src), p, parent);
    }
  }
};

template <template <class...> class Tup, class... Ts>
struct tuple_caster {
  using type = Tup<Ts...>;
  std::tuple<make_caster<Ts>...> sub;
  bool load(handle h, bool convert) { return load_impl(h, convert, std::index_sequence_for<Ts...>{}); }
  template <size_t... Is>
  bool load_impl(handle h, bool convert, std::index_sequence<Is...>) {
    if (!h || !PySequence_Check(h.ptr()) || PyUnicode_Check(h.ptr())) return false;
    if (PySequence_Size(h.ptr()) != (Py_ssize_t)sizeof...(Ts)) {
      PyErr_Clear();
      return false;
    }
    bool ok = true;
    auto one = [&](auto& c, size_t i) {
      PyObject* o = PySequence_GetItem(h.ptr(), i);
      if (!o) {
        PyErr_Clear();
        return false;
      }
      keep.push_back(reinterpret_steal<object>(o));
      return c.load(keep.back(), convert);
    };
    (void)one;
    ((ok = ok && one(std::get<Is>(sub), Is)), ...);
    return ok;
  }
  std::vector<object> keep;
  std::optional<type> held;
  template <size_t... Is>
  type build(std::index_sequence<Is...>) {
    return type(cast_op<Ts&&>(std::get<Is>(sub))...);
  }
  template <class A>
  A get() {
    if constexpr (std::is_pointer<std::remove_reference_t<A>>::value) {
      held.emplace(build(std::index_sequence_for<Ts...>{}));
      return &*held;
    } else if constexpr (std::is_lvalue_reference<A>::value) {
      held.emplace(build(std::index_sequence_for<Ts...>{}));
      return *held;
    } else if constexpr (std::is_rvalue_reference<A>::value) {
      held.emplace(build(std::index_sequence_for<Ts...>{}));
      return std::move(*held);
    } else {
      return build(std::index_sequence_for<Ts...>{});
    }
  }
  template <class T>
  static handle cast(T&& src, return_value_policy p, handle parent) {
    if constexpr (std::is_pointer<std::decay_t<T>>::value) {
      if (!src) return none().release();
      return cast(*src, p, parent);
    } else {
      return cast_impl(std::forward<T>(src), p, parent, std::index_sequence_for<Ts...>{});
    }
  }
  template <class T, size_t... Is>
  static handle cast_impl(T&& src, return_value_policy p, handle parent,
                          std::index_sequence<Is...>) {
    object entries[sizeof...(Ts) + 1] = {reinterpret_steal<object>(
        make_caster<Ts>::cast(std::get<Is>(std::forward<T>(src)), p, parent))...};
    for (size_t i = 0; i < sizeof...(Ts); ++i)
      if (!entries[i]) return handle();
    PyObject* t = PyTuple_New(sizeof...(Ts));
    for (size_t i = 0; i < sizeof...(Ts); ++i)
      PyTuple_SET_ITEM(t, i, entries[i].release().ptr());
    return t;
  }
};
template <class A, class B>
struct default_caster<std::pair<A, B>> : tuple_caster<std::pair, A, B> {};
template <class... Ts>
struct default_caster<std::tuple<Ts...>> : tuple_caster<std::tuple, Ts...> {};

template <class H>
struct default_caster<std::unique_ptr<H>> : generic_caster_tag {
  static handle cast(std::unique_ptr<H>&& src, return_value_policy, handle parent) {
    H* p = src.release();
    return generic_cast(p, return_value_policy::take_ownership, parent,
                        get_type_info(typeid(H)), typeid(H), nullptr, nullptr);
  }
};

}  // namespace detail

// ------------------------------------------------------------------ cast<>()
template <class T, class = std::enable_if_t<!std::is_base_of<handle, std::decay_t<T>>::value>>
object cast(T&& v, return_value_policy policy = return_value_policy::automatic_reference,
            handle parent = handle()) {
  using NR = std::remove_reference_t<T>;
  if (policy == return_value_policy::automatic)
    policy = std::is_pointer<NR>::value ? return_value_policy::take_ownership
             : std::is_lvalue_reference<T>::value ? return_value_policy::copy
                                                  : return_value_policy::move;
  else if (policy == return_value_policy::automatic_reference)
    policy = std::is_pointer<NR>::value ? return_value_policy::reference
             : std::is_lvalue_reference<T>::value ? return_value_policy::copy
                                                  : return_value_policy::move;
  handle h = detail::make_caster<T>::cast(std::forward<T>(v), policy, parent);
  if (!h) throw error_already_set();
  return reinterpret_steal<object>(h);
}
inline object cast(const handle& h) { return object(h, borrowed_t()); }

template <class T>
T handle::cast() const {
  if constexpr (std::is_void<T>::value) {
    return;
  } else if constexpr (std::is_base_of<handle, T>::value) {
    if constexpr (std::is_same<T, handle>::value)
      return *this;
    else {
      if (!T::check_(*this)) throw cast_error("Unable to cast Python instance");
      return T(*this, borrowed_t());
    }
  } else {
    detail::make_caster<T> c;
    if (!c.load(*this, true))
      throw cast_error(std::string("Unable to cast Python instance of type ") +
                       (m_ptr ? Py_TYPE(m_ptr)->tp_name : "NULL") + " to C++ type");
    return detail::cast_op<T>(c);
  }
}

namespace detail {
class accessor {
 public:
  accessor(object obj, object key, bool attr)
      : obj_(std::move(obj)), key_(std::move(key)), attr_(attr) {}
  accessor(const accessor&) = default;
  object get() const {
    PyObject* r = attr_ ? PyObject_GetAttr(obj_.ptr(), key_.ptr())
                        : PyObject_GetItem(obj_.ptr(), key_.ptr());
    if (!r) throw error_already_set();
    return reinterpret_steal<object>(r);
  }
  operator object() const { return get(); }
  template <class T>
  T cast() const {
    return get().template cast<T>();
  }
  template <class K>
  accessor operator[](K&& k) const {
    return static_cast<handle>(get()).operator[](std::forward<K>(k)).own(get());
  }
  accessor own(object o) const { return accessor(std::move(o), key_, attr_); }
  accessor attr(const char* n) const { return accessor(get(), str(n), true); }
  template <class... A>
  object operator()(A&&... a) const {
    return get()(std::forward<A>(a)...);
  }
  template <class T>
  void operator=(T&& v) && {
    set(pybind11::cast(std::forward<T>(v)));
  }
  void operator=(const accessor& o) && { set(o.get()); }
  template <class T>
  void operator=(T&& v) & {
    set(pybind11::cast(std::forward<T>(v)));
  }
  bool is_none() const { return get().is_none(); }
  template <class T>
  bool contains(const T& k) const {
    return get().contains(k);
  }

 private:
  void set(const object& v) {
    int r = attr_ ? PyObject_SetAttr(obj_.ptr(), key_.ptr(), v.ptr())
                  : PyObject_SetItem(obj_.ptr(), key_.ptr(), v.ptr());
    if (r != 0) throw error_already_set();
  }
  object obj_, key_;
  bool attr_;
};
}  // namespace detail

inline detail::accessor handle::attr(const char* name) const {
  return detail::accessor(object(*this, borrowed_t()), str(name), true);
}
inline detail::accessor handle::operator[](const char* key) const {
  return detail::accessor(object(*this, borrowed_t()), str(key), false);
}
inline detail::accessor handle::operator[](const std::string& key) const {
  return detail::accessor(object(*this, borrowed_t()), str(key), false);
}
inline detail::accessor handle::operator[](handle key) const {
  return detail::accessor(object(*this, borrowed_t()), object(key, borrowed_t()), false);
}
template <class T>
bool handle::contains(const T& k) const {
  object o = pybind11::cast(k);
  int r = PySequence_Contains(m_ptr, o.ptr());
  if (r < 0) throw error_already_set();
  return r;
}
inline detail::accessor module_::doc() { return attr("__doc__"); }

template <class T>
void list::append(T&& v) {
  object o = pybind11::cast(std::forward<T>(v));
  if (PyList_Append(m_ptr, o.ptr()) != 0) throw error_already_set();
}

template <return_value_policy P = return_value_policy::automatic_reference, class... A>
tuple make_tuple(A&&... a) {
  constexpr size_t n = sizeof...(A);
  std::vector<object> v;
  v.reserve(n);
  auto one = [&](auto&& x) {
    using X = decltype(x);
    handle h = detail::make_caster<X>::cast(std::forward<X>(x), P, handle());
    if (!h) throw error_already_set();
    v.push_back(reinterpret_steal<object>(h));
  };
  (void)one;
  (one(std::forward<A>(a)), ...);
  tuple t(n);
  for (size_t i = 0; i < n; ++i) PyTuple_SET_ITEM(t.ptr(), i, v[i].release().ptr());
  return t;
}

template <class... A>
object handle::operator()(A&&... a) const {
  tuple t = make_tuple(std::forward<A>(a)...);
  PyObject* r = PyObject_CallObject(m_ptr, t.ptr());
  if (!r) throw error_already_set();
  return reinterpret_steal<object>(r);
}

// ------------------------------------------------------------------ arguments
struct arg_v;
struct arg {
  const char* name;
  bool flag_noconvert = false;
  bool flag_none = true;
  constexpr explicit arg(const char* n = nullptr) : name(n) {}
  arg& noconvert(bool f = true) {
    flag_noconvert = f;
    return *this;
  }
  arg& none(bool f = true) {
    flag_none = f;
    return *this;
  }
  template <class T>
  arg_v operator=(T&& v) const;
};
struct arg_v : arg {
  object value;
  arg_v(const arg& b, object v) : arg(b), value(std::move(v)) {}
};
template <class T>
arg_v arg::operator=(T&& v) const {
  if constexpr (std::is_same<std::decay_t<T>, std::nullopt_t>::value ||
                std::is_same<std::decay_t<T>, std::nullptr_t>::value)
    return arg_v(*this, pybind11::none());
  else
    return arg_v(*this, pybind11::cast(std::forward<T>(v)));
}
inline namespace literals {
inline arg operator""_a(const char* n, size_t) { return arg(n); }
}  // namespace literals

namespace detail {
template <>
struct default_caster<std::nullopt_t> {
  static handle cast(std::nullopt_t, return_value_policy, handle) {
    return none().release();
  }
};

struct argument_record {
  std::string name;
  object value;  // default (may be empty)
  bool convert = true;
};

struct function_call {
  std::vector<handle> args;
  std::vector<bool> convert;
  handle parent;
  object init_self;
};

struct function_record {
  std::string name;
  std::function<handle(function_call&, return_value_policy)> impl;
  std::vector<argument_record> args;
  size_t nargs = 0;
  return_value_policy policy = return_value_policy::automatic;
  bool is_method = false;
  bool gil_release = false;
  bool is_operator = false;
  bool is_ctor = false;
  std::vector<std::pair<size_t, size_t>> keep_alive;
  std::string doc;
  function_record* next = nullptr;
  PyMethodDef* def = nullptr;
  handle scope;
};

#define MINIPB_NEXT_OVERLOAD ((PyObject*)1)

inline const char* fr_capsule_name() { return "minipb_function_record"; }

inline void set_cpp_exception() {
  try {
    throw;
  } catch (error_already_set& e) {
    e.restore();
  } catch (const stop_iteration& e) {
    PyErr_SetString(PyExc_StopIteration, e.what());
  } catch (const value_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const key_error& e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (const index_error& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const type_error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const cast_error& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (const std::bad_alloc& e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range& e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error& e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
  }
}

inline PyObject* dispatcher(PyObject* self, PyObject* args_in, PyObject* kwargs_in) {
  auto* overloads = static_cast<function_record*>(
      PyCapsule_GetPointer(self, fr_capsule_name()));
  if (!overloads) return nullptr;
  const size_t n_in = (size_t)PyTuple_GET_SIZE(args_in);
  handle parent = n_in > 0 ? PyTuple_GET_ITEM(args_in, 0) : nullptr;
  const bool overloaded = overloads->next != nullptr;
  handle result(MINIPB_NEXT_OVERLOAD);
  try {
    for (int pass = overloaded ? 0 : 1; pass < 2; ++pass) {
      for (function_record* f = overloads; f; f = f->next) {
        if (n_in > f->nargs) continue;
        if (n_in < f->nargs && f->args.size() < f->nargs) continue;
        function_call call;
        call.parent = parent;
        bool bad = false;
        size_t copied = 0;
        size_t n_kw_used = 0;
        for (; copied < n_in; ++copied) {
          const argument_record* r =
              copied < f->args.size() ? &f->args[copied] : nullptr;
          if (r && kwargs_in && !r->name.empty() &&
              PyDict_GetItemString(kwargs_in, r->name.c_str())) {
            bad = true;
            break;
          }
          call.args.push_back(PyTuple_GET_ITEM(args_in, copied));
          call.convert.push_back(pass == 1 && (r ? r->convert : true));
        }
        if (bad) continue;
        for (; copied < f->nargs; ++copied) {
          const argument_record& r = f->args[copied];
          handle v;
          if (kwargs_in && !r.name.empty()) {
            v = PyDict_GetItemString(kwargs_in, r.name.c_str());
            if (v) ++n_kw_used;
          }
          if (!v) v = r.value;
          if (!v) {
            bad = true;
            break;
          }
          call.args.push_back(v);
          call.convert.push_back(pass == 1 && r.convert);
        }
        if (bad) continue;
        if (kwargs_in && (size_t)PyDict_Size(kwargs_in) > n_kw_used) continue;
        try {
          result = f->impl(call, f->policy);
        } catch (reference_cast_error&) {
          result = handle(MINIPB_NEXT_OVERLOAD);
        }
        if (result.ptr() != MINIPB_NEXT_OVERLOAD) {
          if (result) {
            for (auto& ka : f->keep_alive) {
              auto pick = [&](size_t i) -> handle {
                if (i == 0) return result;
                if (i <= call.args.size()) return call.args[i - 1];
                return handle();
              };
              keep_alive_impl(pick(ka.first), pick(ka.second));
            }
          }
          break;
        }
      }
      if (result.ptr() != MINIPB_NEXT_OVERLOAD) break;
    }
  } catch (...) {
    set_cpp_exception();
    return nullptr;
  }
  if (result.ptr() == MINIPB_NEXT_OVERLOAD) {
    if (overloads->is_operator) {
      Py_INCREF(Py_NotImplemented);
      return Py_NotImplemented;
    }
    std::string got;
    for (size_t i = 0; i < n_in; ++i) {
      if (i) got += ", ";
      got += Py_TYPE(PyTuple_GET_ITEM(args_in, i))->tp_name;
    }
    if (kwargs_in) got += "; kwargs";
    PyErr_Format(PyExc_TypeError,
                 "%s(): incompatible function arguments. Invoked with: %s",
                 overloads->name.c_str(), got.c_str());
    return nullptr;
  }
  if (!result && !PyErr_Occurred()) {
    PyErr_SetString(PyExc_TypeError,
                    "Unable to convert function return value to a Python type!");
  }
  return result.ptr();
}

// attribute processing
inline void process_one(function_record& r, const arg& a) {
  if (r.is_method && r.args.empty()) r.args.push_back({"self", object(), true});
  r.args.push_back({a.name ? a.name : "", object(), !a.flag_noconvert});
}
inline void process_one(function_record& r, const arg_v& a) {
  if (r.is_method && r.args.empty()) r.args.push_back({"self", object(), true});
  r.args.push_back({a.name ? a.name : "", a.value, !a.flag_noconvert});
}
inline void process_one(function_record& r, const return_value_policy& p) { r.policy = p; }
inline void process_one(function_record& r, const char* doc) { r.doc = doc; }
inline void process_one(function_record& r, const is_operator&) { r.is_operator = true; }
inline void process_one(function_record&, const module_local&) {}
template <size_t N, size_t P>
void process_one(function_record& r, const keep_alive<N, P>&) {
  r.keep_alive.emplace_back(N, P);
}
inline void process_one(function_record&, const call_guard<>&) {}
template <class G, class... Gs>
void process_one(function_record& r, const call_guard<G, Gs...>&) {
  if (std::is_same<G, gil_scoped_release>::value) r.gil_release = true;
}

template <class R, class... A, class F, size_t... Is>
handle invoke(F& f, function_call& call, return_value_policy policy, bool gil,
              std::index_sequence<Is...>) {
  std::tuple<make_caster<A>...> casters;
  bool ok = true;
  (void)ok;
  ((ok = ok && std::get<Is>(casters).load(call.args[Is], call.convert[Is])), ...);
  if (!ok) return handle(MINIPB_NEXT_OVERLOAD);
  std::optional<gil_scoped_release> guard;
  if constexpr (std::is_void<R>::value) {
    if (gil) guard.emplace();
    f(cast_op<A>(std::get<Is>(casters))...);
    guard.reset();
    return none().release();
  } else {
    if (gil) guard.emplace();
    R r = f(cast_op<A>(std::get<Is>(casters))...);
    guard.reset();
    return make_caster<R>::cast(std::forward<R>(r), policy_override<R>(policy), call.parent);
  }
}

template <class F>
struct lambda_traits : lambda_traits<decltype(&F::operator())> {};
template <class R, class C, class... A>
struct lambda_traits<R (C::*)(A...)> {
  using sig = R(A...);
};
template <class R, class C, class... A>
struct lambda_traits<R (C::*)(A...) const> {
  using sig = R(A...);
};
template <class R, class C, class... A>
struct lambda_traits<R (C::*)(A...) noexcept> {
  using sig = R(A...);
};
template <class R, class C, class... A>
struct lambda_traits<R (C::*)(A...) const noexcept> {
  using sig = R(A...);
};

template <class F, class R, class... A>
void fill_record(function_record& rec, F&& f, R (*)(A...)) {
  rec.nargs = sizeof...(A);
  std::decay_t<F> fn = std::forward<F>(f);
  function_record* rp = &rec;
  rec.impl = [fn, rp](function_call& call, return_value_policy p) mutable -> handle {
    return invoke<R, A...>(fn, call, p, rp->gil_release, std::index_sequence_for<A...>{});
  };
}

// Build (or chain onto) a Python callable.  Returns the callable.
inline object finish_function(function_record* rec, handle scope, handle sibling) {
  rec->scope = scope;
  function_record* chain = nullptr;
  object chain_obj;
  if (sibling && !sibling.is_none()) {
    handle s = sibling;
    if (PyInstanceMethod_Check(s.ptr())) s = PyInstanceMethod_GET_FUNCTION(s.ptr());
    if (PyCFunction_Check(s.ptr())) {
      PyObject* self = PyCFunction_GET_SELF(s.ptr());
      if (self && PyCapsule_IsValid(self, fr_capsule_name())) {
        chain = static_cast<function_record*>(PyCapsule_GetPointer(self, fr_capsule_name()));
        if (chain->scope.ptr() != scope.ptr()) chain = nullptr;
        else chain_obj = reinterpret_borrow<object>(s);
      }
    }
  }
  object fn;
  if (chain) {
    function_record* it = chain;
    while (it->next) it = it->next;
    it->next = rec;
    fn = chain_obj;
  } else {
    auto* def = new PyMethodDef();
    std::memset(def, 0, sizeof(*def));
    def->ml_name = strdup(rec->name.c_str());
    def->ml_meth = reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatcher));
    def->ml_flags = METH_VARARGS | METH_KEYWORDS;
    def->ml_doc = strdup(rec->doc.c_str());
    rec->def = def;
    object cap = reinterpret_steal<object>(PyCapsule_New(rec, fr_capsule_name(), nullptr));
    object modname;
    if (scope) {
      if (PyModule_Check(scope.ptr()))
        modname = reinterpret_steal<object>(PyObject_GetAttrString(scope.ptr(), "__name__"));
      else
        modname = reinterpret_steal<object>(PyObject_GetAttrString(scope.ptr(), "__module__"));
      PyErr_Clear();
    }
    fn = reinterpret_steal<object>(PyCFunction_NewEx(def, cap.ptr(), modname.ptr()));
  }
  if (rec->is_method) return reinterpret_steal<object>(PyInstanceMethod_New(fn.ptr()));
  return fn;
}

template <class F>
struct is_lambda : std::integral_constant<
    bool, !std::is_function<std::remove_pointer_t<std::decay_t<F>>>::value &&
              !std::is_member_pointer<std::decay_t<F>>::value> {};

template <class F>
void make_record(function_record& rec, F&& f) {
  using D = std::decay_t<F>;
  if constexpr (is_lambda<F>::value) {
    using sig = typename lambda_traits<D>::sig;
    fill_record(rec, std::forward<F>(f), static_cast<sig*>(nullptr));
  } else {
    fill_record(rec, std::forward<F>(f), static_cast<D>(nullptr));
  }
}

// Member function pointers: adapt to class C.
template <class C, class R, class B, class... A>
auto pmf_lambda(R (B::*f)(A...)) {
  return [f](C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); };
}
template <class C, class R, class B, class... A>
auto pmf_lambda(R (B::*f)(A...) const) {
  return [f](const C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); };
}
template <class C, class F>
auto adapt(F&& f) {
  if constexpr (std::is_member_function_pointer<std::decay_t<F>>::value)
    return pmf_lambda<C>(f);
  else
    return std::forward<F>(f);
}

}  // namespace detail

class cpp_function : public object {
 public:
  cpp_function() = default;
  cpp_function(const object& o) : object(o) {}
};

template <class F, class... Extra>
module_& module_::def(const char* name, F&& f, const Extra&... extra) {
  auto* rec = new detail::function_record();
  rec->name = name;
  (detail::process_one(*rec, extra), ...);
  detail::make_record(*rec, std::forward<F>(f));
  object sib = reinterpret_steal<object>(PyObject_GetAttrString(ptr(), name));
  PyErr_Clear();
  object fn = detail::finish_function(rec, *this, sib);
  PyObject_SetAttrString(ptr(), name, fn.ptr());
  return *this;
}

// -------------------------------------------------------------------- init/pickle
namespace detail {
template <class... A>
struct init_t {};
template <class F>
struct factory_t {
  F f;
};
template <class G, class S>
struct pickle_t {
  G get;
  S set;
};
}  // namespace detail
template <class... A>
detail::init_t<A...> init() {
  return {};
}
template <class F>
detail::factory_t<std::decay_t<F>> init(F&& f) {
  return {std::forward<F>(f)};
}
template <class G, class S>
detail::pickle_t<G, S> pickle(G&& g, S&& s) {
  return {std::forward<G>(g), std::forward<S>(s)};
}

namespace detail {
template <class T>
void destroyer(void* p) {
  delete static_cast<T*>(p);
}

inline void install_value(instance* i, void* v) {
  if (i->value) {
    deregister_instance(i);
    if (i->owned) i->rec->destroy(i->value);
  }
  i->value = v;
  i->owned = true;
  register_instance(i);
}

template <class C, class A0, class R>
struct setstate_helper;
}  // namespace detail

template <class T, class... Options>
class class_ : public object {
 public:
  template <class... Extra>
  class_(handle scope, const char* name, const Extra&...) {
    std::string modname;
    if (scope) {
      object n = reinterpret_steal<object>(PyObject_GetAttrString(
          scope.ptr(), PyModule_Check(scope.ptr()) ? "__name__" : "__module__"));
      PyErr_Clear();
      if (n) modname = (std::string)str(n);
    }
    if (modname.empty()) modname = "pybind11_builtins";
    std::string qual = modname + "." + name;
    auto& in = detail::get_internals();
    if (in.by_cpp.count(typeid(T).name()))
      throw std::runtime_error("generic_type: type \"" + std::string(name) +
                               "\" is already registered!");
    auto* rec = new detail::type_record();
    rec->cpp_name = typeid(T).name();
    rec->qualname = qual;
    rec->destroy = &detail::destroyer<T>;
    static PyMemberDef members[] = {
        {"__weaklistoffset__", T_PYSSIZET, offsetof(detail::instance, weakrefs), READONLY, nullptr},
        {nullptr, 0, 0, 0, nullptr}};
    PyType_Slot slots[] = {
        {Py_tp_new, reinterpret_cast<void*>(&detail::minipb_tp_new)},
        {Py_tp_init, reinterpret_cast<void*>(&detail::minipb_tp_init)},
        {Py_tp_dealloc, reinterpret_cast<void*>(&detail::minipb_tp_dealloc)},
        {Py_tp_members, members},
        {0, nullptr}};
    PyType_Spec spec = {strdup(qual.c_str()), (int)sizeof(detail::instance), 0,
                        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    m_ptr = PyType_FromSpec(&spec);
    if (!m_ptr) throw error_already_set();
    rec->type = reinterpret_cast<PyTypeObject*>(m_ptr);
    in.by_cpp[rec->cpp_name] = rec;
    in.by_py[rec->type] = rec;
    inc_ref();  // types live forever
    if (!modname.empty())
      PyObject_SetAttrString(m_ptr, "__module__", str(modname).ptr());
    if (scope) {
      if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) != 0) throw error_already_set();
      if (PyType_Check(scope.ptr())) {
        object q = reinterpret_steal<object>(PyObject_GetAttrString(scope.ptr(), "__qualname__"));
        std::string s = (std::string)str(q) + "." + name;
        PyObject_SetAttrString(m_ptr, "__qualname__", str(s).ptr());
      }
    }
  }

  template <class F, class... Extra>
  class_& def(const char* name, F&& f, const Extra&... extra) {
    add_method(name, detail::adapt<T>(std::forward<F>(f)), extra...);
    return *this;
  }
  template <class... A, class... Extra>
  class_& def(const detail::init_t<A...>&, const Extra&... extra) {
    add_method(
        "__init__",
        [](detail::value_and_holder& v, A... a) {
          if constexpr (std::is_constructible<T, A...>::value)
            detail::install_value(v.inst, new T(std::forward<A>(a)...));
          else
            detail::install_value(v.inst, new T{std::forward<A>(a)...});
        },
        extra...);
    return *this;
  }
  template <class F, class... Extra>
  class_& def(const detail::factory_t<F>& fac, const Extra&... extra) {
    using sig = typename detail::lambda_traits<F>::sig;
    def_factory(fac.f, static_cast<sig*>(nullptr), "__init__", extra...);
    return *this;
  }
  template <class G, class S, class... Extra>
  class_& def(const detail::pickle_t<G, S>& pk, const Extra&... extra) {
    add_method("__getstate__", pk.get);
    using sig = typename detail::lambda_traits<std::decay_t<S>>::sig;
    def_factory(pk.set, static_cast<sig*>(nullptr), "__setstate__", extra...);
    return *this;
  }
  template <class F, class... Extra>
  class_& def_static(const char* name, F&& f, const Extra&... extra) {
    auto* rec = new detail::function_record();
    rec->name = name;
    (detail::process_one(*rec, extra), ...);
    detail::make_record(*rec, std::forward<F>(f));
    object sib = lookup(name);
    if (sib && Py_TYPE(sib.ptr()) == &PyStaticMethod_Type) {
      sib = reinterpret_steal<object>(PyObject_GetAttrString(sib.ptr(), "__func__"));
    }
    object fn = detail::finish_function(rec, *this, sib);
    object sm = reinterpret_steal<object>(PyStaticMethod_New(fn.ptr()));
    PyObject_SetAttrString(m_ptr, name, sm.ptr());
    return *this;
  }
  template <class G, class... Extra>
  class_& def_property_readonly(const char* name, const G& g, const Extra&... extra) {
    object get = getter(name, g, extra...);
    set_property(name, get, none());
    return *this;
  }
  template <class G, class S, class... Extra>
  class_& def_property(const char* name, const G& g, const S& s, const Extra&... extra) {
    object get = getter(name, g, extra...);
    auto* rec = new detail::function_record();
    rec->name = name;
    rec->is_method = true;
    (detail::process_one(*rec, extra), ...);
    detail::make_record(*rec, detail::adapt<T>(s));
    object set = detail::finish_function(rec, *this, handle());
    set_property(name, get, set);
    return *this;
  }
  template <class C, class D, class... Extra>
  class_& def_readwrite(const char* name, D C::*pm, const Extra&... extra) {
    return def_property(
        name, [pm](const T& c) -> const D& { return c.*pm; },
        [pm](T& c, const D& v) { c.*pm = v; }, extra...);
  }
  template <class C, class D, class... Extra>
  class_& def_readonly(const char* name, const D C::*pm, const Extra&... extra) {
    return def_property_readonly(
        name, [pm](const T& c) -> const D& { return c.*pm; }, extra...);
  }
  template <class D, class... Extra>
  class_& def_readonly_static(const char* name, const D* pm, const Extra&...) {
    object v = pybind11::cast(*pm);
    PyObject_SetAttrString(m_ptr, name, v.ptr());
    return *this;
  }

 private:
  object lookup(const char* name) {
    object d = reinterpret_steal<object>(PyObject_GetAttrString(m_ptr, "__dict__"));
    PyObject* o = PyObject_GetItem(d.ptr(), str(name).ptr());
    PyErr_Clear();
    return reinterpret_steal<object>(o);
  }
  template <class F, class... Extra>
  void add_method(const char* name, F&& f, const Extra&... extra) {
    auto* rec = new detail::function_record();
    rec->name = name;
    rec->is_method = true;
    (detail::process_one(*rec, extra), ...);
    detail::make_record(*rec, std::forward<F>(f));
    object fn = detail::finish_function(rec, *this, lookup(name));
    if (PyObject_SetAttrString(m_ptr, name, fn.ptr()) != 0) throw error_already_set();
    if (std::string(name) == "__eq__" && !lookup("__hash__"))
      PyObject_SetAttrString(m_ptr, "__hash__", Py_None);
  }
  template <class F, class R, class... A, class... Extra>
  void def_factory(const F& f, R (*)(A...), const char* name, const Extra&... extra) {
    F fn = f;
    add_method(
        name,
        [fn](detail::value_and_holder& v, A... a) mutable {
          if constexpr (std::is_pointer<R>::value)
            detail::install_value(v.inst, fn(std::forward<A>(a)...));
          else if constexpr (std::is_same<R, std::unique_ptr<T>>::value)
            detail::install_value(v.inst, fn(std::forward<A>(a)...).release());
          else
            detail::install_value(v.inst, new T(fn(std::forward<A>(a)...)));
        },
        extra...);
  }
  template <class G, class... Extra>
  object getter(const char* name, const G& g, const Extra&... extra) {
    auto* rec = new detail::function_record();
    rec->name = name;
    rec->is_method = true;
    rec->policy = return_value_policy::reference_internal;
    (detail::process_one(*rec, extra), ...);
    detail::make_record(*rec, detail::adapt<T>(g));
    return detail::finish_function(rec, *this, handle());
  }
  void set_property(const char* name, const object& g, const object& s) {
    object p = reinterpret_steal<object>(PyObject_CallFunctionObjArgs(
        reinterpret_cast<PyObject*>(&PyProperty_Type), g.ptr(), s.ptr(), nullptr));
    if (!p) throw error_already_set();
    PyObject_SetAttrString(m_ptr, name, p.ptr());
  }
};

template <class T>
class enum_ : public class_<T> {
 public:
  using Base = class_<T>;
  using U = std::underlying_type_t<T>;
  template <class... Extra>
  enum_(handle scope, const char* name, const Extra&...) : Base(scope, name), scope_(scope), name_(name) {
    object self = *this;
    entries_ = dict();
    PyObject_SetAttrString(self.ptr(), "__members__", entries_.ptr());
    dict ents = entries_;
    std::string nm = name;
    auto nameof = [ents](const T& v) -> std::string {
      for (auto kv : reinterpret_steal<object>(PyDict_Items(ents.ptr()))) {
        object k = reinterpret_steal<object>(PySequence_GetItem(kv.ptr(), 0));
        object o = reinterpret_steal<object>(PySequence_GetItem(kv.ptr(), 1));
        if (o.cast<T>() == v) return (std::string)str(k);
      }
      return "???";
    };
    Base::def(init([](long long v) { return static_cast<T>(v); }));
    Base::def("__int__", [](const T& v) { return (long long)(U)v; });
    Base::def("__index__", [](const T& v) { return (long long)(U)v; });
    Base::def("__hash__", [](const T& v) { return (long long)(U)v; });
    Base::def("__eq__", [](const T& a, const object& o) {
      auto* ti = detail::get_type_info(typeid(T));
      return PyObject_TypeCheck(o.ptr(), ti->type) && o.cast<T>() == a;
    });
    Base::def("__ne__", [](const T& a, const object& o) {
      auto* ti = detail::get_type_info(typeid(T));
      return !(PyObject_TypeCheck(o.ptr(), ti->type) && o.cast<T>() == a);
    });
    Base::def("__repr__", [nameof, nm](const T& v) {
      return "<" + nm + "." + nameof(v) + ": " + std::to_string((long long)(U)v) + ">";
    });
    Base::def("__str__", [nameof, nm](const T& v) { return nm + "." + nameof(v); });
    Base::def("__getstate__", [](const T& v) { return (long long)(U)v; });
    Base::def("__setstate__", [](detail::value_and_holder& v, long long x) {
      detail::install_value(v.inst, new T(static_cast<T>(x)));
    });
    Base::def_property_readonly("name", nameof);
    Base::def_property_readonly("value", [](const T& v) { return (long long)(U)v; });
  }
  enum_& value(const char* name, T v, const char* = nullptr) {
    object o = pybind11::cast(v, return_value_policy::copy);
    PyObject_SetAttrString(this->ptr(), name, o.ptr());
    PyDict_SetItemString(entries_.ptr(), name, o.ptr());
    return *this;
  }
  enum_& export_values() {
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(entries_.ptr(), &pos, &k, &v)) PyObject_SetAttr(scope_.ptr(), k, v);
    return *this;
  }

 private:
  handle scope_;
  std::string name_;
  dict entries_;
};

// ------------------------------------------------------------------ iterators
namespace detail {
template <class It, class Sent, bool KeyOnly, return_value_policy P>
struct iterator_state {
  It it;
  Sent end;
  bool first_or_done;
};
}  // namespace detail

template <return_value_policy P = return_value_policy::reference_internal, class It,
          class Sent, class V = decltype(*std::declval<It>()), class... Extra>
iterator make_iterator(It first, Sent last, Extra&&... extra) {
  using state = detail::iterator_state<It, Sent, false, P>;
  if (!detail::get_type_info(typeid(state), false)) {
    class_<state>(handle(), "iterator", module_local())
        .def("__iter__", [](state& s) -> state& { return s; })
        .def(
            "__next__",
            [](state& s) -> V {
              if (!s.first_or_done)
                ++s.it;
              else
                s.first_or_done = false;
              if (s.it == s.end) {
                s.first_or_done = true;
                throw stop_iteration();
              }
              return *s.it;
            },
            std::forward<Extra>(extra)..., P);
  }
  return iterator(cast(state{first, last, true}).release(), stolen_t());
}

template <return_value_policy P = return_value_policy::reference_internal, class It,
          class Sent, class K = decltype((*std::declval<It>()).first), class... Extra>
iterator make_key_iterator(It first, Sent last, Extra&&... extra) {
  using state = detail::iterator_state<It, Sent, true, P>;
  if (!detail::get_type_info(typeid(state), false)) {
    class_<state>(handle(), "key_iterator", module_local())
        .def("__iter__", [](state& s) -> state& { return s; })
        .def(
            "__next__",
            [](state& s) -> K {
              if (!s.first_or_done)
                ++s.it;
              else
                s.first_or_done = false;
              if (s.it == s.end) {
                s.first_or_done = true;
                throw stop_iteration();
              }
              return (*s.it).first;
            },
            std::forward<Extra>(extra)..., P);
  }
  return iterator(cast(state{first, last, true}).release(), stolen_t());
}

template <return_value_policy P = return_value_policy::reference_internal, class T,
          class... Extra>
iterator make_iterator(T& v, Extra&&... extra) {
  return make_iterator<P>(std::begin(v), std::end(v), std::forward<Extra>(extra)...);
}

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                        \
  static void minipb_init_##name(pybind11::module_& variable);                 \
  extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() { \
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1,        \
                              nullptr, nullptr, nullptr, nullptr, nullptr};     \
    PyObject* m = PyModule_Create(&def);                                       \
    if (!m) return nullptr;                                                    \
    PyObject* nm = PyUnicode_FromString("opensfm." #name);                     \
    PyObject_SetAttrString(m, "__name__", nm);                                 \
    Py_DECREF(nm);                                                             \
    try {                                                                      \
      pybind11::module_ mod = pybind11::reinterpret_borrow<pybind11::module_>(m); \
      minipb_init_##name(mod);                                                 \
    } catch (...) {                                                            \
      pybind11::detail::set_cpp_exception();                                   \
      Py_DECREF(m);                                                            \
      return nullptr;                                                          \
    }                                                                          \
    return m;                                                                  \
  }                                                                            \
  void minipb_init_##name(pybind11::module_& variable)
