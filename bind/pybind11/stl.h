#pragma once
#include "pybind11.h"

namespace pybind11 {
namespace detail {

inline bool minipb_is_sequence(handle h) {
  return PySequence_Check(h.ptr()) && !PyUnicode_Check(h.ptr()) && !PyBytes_Check(h.ptr());
}

template <class Type, class Value>
struct list_caster : value_caster<Type> {
  using value_caster<Type>::value;
  bool load(handle h, bool convert) {
    if (!h) return false;
    object seq;
    if (!minipb_is_sequence(h)) {
      // sets, generators and dict views are accepted in convert mode
      if (PyUnicode_Check(h.ptr()) || PyBytes_Check(h.ptr()) || PyDict_Check(h.ptr())) return false;
      const char* tn = Py_TYPE(h.ptr())->tp_name;
      bool view = !std::strcmp(tn, "dict_keys") || !std::strcmp(tn, "dict_values") ||
                  !std::strcmp(tn, "dict_items") || !std::strcmp(tn, "map") ||
                  !std::strcmp(tn, "zip") || !std::strcmp(tn, "generator");
      if (!(PyAnySet_Check(h.ptr()) || view) || !convert) return false;
      seq = reinterpret_steal<object>(PySequence_List(h.ptr()));
      if (!seq) {
        PyErr_Clear();
        return false;
      }
      h = seq;
    }
    Py_ssize_t n = PySequence_Size(h.ptr());
    if (n < 0) {
      PyErr_Clear();
      return false;
    }
    value.clear();
    for (Py_ssize_t i = 0; i < n; ++i) {
      object it = reinterpret_steal<object>(PySequence_GetItem(h.ptr(), i));
      if (!it) {
        PyErr_Clear();
        return false;
      }
      make_caster<Value> c;
      if (!c.load(it, convert)) return false;
      value.push_back(cast_op<Value&&>(c));
    }
    return true;
  }
  template <class T>
  static handle cast(T&& src, return_value_policy p, handle parent) {
    if constexpr (std::is_pointer<std::decay_t<T>>::value) {
      if (!src) return none().release();
      return cast(*src, p, parent);
    } else {
      if (!std::is_lvalue_reference<T>::value) p = policy_override<Value>(p);
      PyObject* l = PyList_New(src.size());
      if (!l) throw error_already_set();
      object guard = reinterpret_steal<object>(l);
      Py_ssize_t i = 0;
      for (auto&& v : src) {
        handle o;
        if constexpr (std::is_lvalue_reference<T>::value)
          o = make_caster<Value>::cast(v, p, parent);
        else
          o = make_caster<Value>::cast(std::forward<Value>(static_cast<Value&>(v)), p, parent);
        if (!o) return handle();
        PyList_SET_ITEM(l, i++, o.ptr());
      }
      return guard.release();
    }
  }
};

// vector<bool>-safe specialisation is not needed by OpenSfM except by value.
template <class A>
struct default_caster<std::vector<bool, A>> : value_caster<std::vector<bool, A>> {
  using value_caster<std::vector<bool, A>>::value;
  bool load(handle h, bool convert) {
    if (!h || !minipb_is_sequence(h)) return false;
    value.clear();
    Py_ssize_t n = PySequence_Size(h.ptr());
    for (Py_ssize_t i = 0; i < n; ++i) {
      object it = reinterpret_steal<object>(PySequence_GetItem(h.ptr(), i));
      make_caster<bool> c;
      if (!it || !c.load(it, convert)) return false;
      value.push_back(c.value);
    }
    return true;
  }
  static handle cast(const std::vector<bool, A>& src, return_value_policy, handle) {
    PyObject* l = PyList_New(src.size());
    for (size_t i = 0; i < src.size(); ++i)
      PyList_SET_ITEM(l, i, handle(src[i] ? Py_True : Py_False).inc_ref().ptr());
    return l;
  }
};
template <class T, class A>
struct default_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T> {};
template <class T, class A>
struct default_caster<std::list<T, A>> : list_caster<std::list<T, A>, T> {};

template <class T, size_t N>
struct default_caster<std::array<T, N>> : value_caster<std::array<T, N>> {
  using value_caster<std::array<T, N>>::value;
  bool load(handle h, bool convert) {
    if (!h || !minipb_is_sequence(h)) return false;
    if (PySequence_Size(h.ptr()) != (Py_ssize_t)N) return false;
    for (size_t i = 0; i < N; ++i) {
      object it = reinterpret_steal<object>(PySequence_GetItem(h.ptr(), i));
      make_caster<T> c;
      if (!it || !c.load(it, convert)) return false;
      value[i] = cast_op<T&&>(c);
    }
    return true;
  }
  static handle cast(const std::array<T, N>& src, return_value_policy p, handle parent) {
    PyObject* l = PyList_New(N);
    for (size_t i = 0; i < N; ++i)
      PyList_SET_ITEM(l, i, make_caster<T>::cast(src[i], p, parent).ptr());
    return l;
  }
};

template <class Type, class Key>
struct set_caster : value_caster<Type> {
  using value_caster<Type>::value;
  bool load(handle h, bool convert) {
    if (!h) return false;
    bool view = !std::strcmp(Py_TYPE(h.ptr())->tp_name, "dict_keys");
    if (!PyAnySet_Check(h.ptr()) && !(convert && view)) return false;
    value.clear();
    object it = reinterpret_steal<object>(PyObject_GetIter(h.ptr()));
    if (!it) {
      PyErr_Clear();
      return false;
    }
    while (PyObject* e = PyIter_Next(it.ptr())) {
      object eo = reinterpret_steal<object>(e);
      make_caster<Key> c;
      if (!c.load(eo, convert)) return false;
      value.insert(cast_op<Key&&>(c));
    }
    return true;
  }
  template <class T>
  static handle cast(T&& src, return_value_policy p, handle parent) {
    if constexpr (std::is_pointer<std::decay_t<T>>::value) {
      if (!src) return none().release();
      return cast(*src, p, parent);
    } else {
      if (!std::is_lvalue_reference<T>::value) p = policy_override<Key>(p);
      object s = reinterpret_steal<object>(PySet_New(nullptr));
      for (auto&& v : src) {
        object o = reinterpret_steal<object>(make_caster<Key>::cast(v, p, parent));
        if (!o || PySet_Add(s.ptr(), o.ptr()) != 0) return handle();
      }
      return s.release();
    }
  }
};
template <class K, class C, class A>
struct default_caster<std::set<K, C, A>> : set_caster<std::set<K, C, A>, K> {};
template <class K, class H, class E, class A>
struct default_caster<std::unordered_set<K, H, E, A>>
    : set_caster<std::unordered_set<K, H, E, A>, K> {};

template <class Type, class Key, class Value>
struct map_caster : value_caster<Type> {
  using value_caster<Type>::value;
  bool load(handle h, bool convert) {
    if (!h || !PyDict_Check(h.ptr())) return false;
    value.clear();
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(h.ptr(), &pos, &k, &v)) {
      make_caster<Key> kc;
      make_caster<Value> vc;
      if (!kc.load(k, convert) || !vc.load(v, convert)) return false;
      value.emplace(cast_op<Key&&>(kc), cast_op<Value&&>(vc));
    }
    return true;
  }
  template <class T>
  static handle cast(T&& src, return_value_policy p, handle parent) {
    if constexpr (std::is_pointer<std::decay_t<T>>::value) {
      if (!src) return none().release();
      return cast(*src, p, parent);
    } else {
      object d = reinterpret_steal<object>(PyDict_New());
      return_value_policy pk = p, pv = p;
      if (!std::is_lvalue_reference<T>::value) {
        pk = policy_override<Key>(p);
        pv = policy_override<Value>(p);
      }
      for (auto&& kv : src) {
        object k = reinterpret_steal<object>(make_caster<Key>::cast(kv.first, pk, parent));
        object v;
        if constexpr (std::is_lvalue_reference<T>::value)
          v = reinterpret_steal<object>(make_caster<Value>::cast(kv.second, pv, parent));
        else
          v = reinterpret_steal<object>(make_caster<Value>::cast(
              std::forward<Value>(const_cast<Value&>(kv.second)), pv, parent));
        if (!k || !v) return handle();
        if (PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()) != 0) return handle();
      }
      return d.release();
    }
  }
};
template <class K, class V, class C, class A>
struct default_caster<std::map<K, V, C, A>> : map_caster<std::map<K, V, C, A>, K, V> {};
template <class K, class V, class H, class E, class A>
struct default_caster<std::unordered_map<K, V, H, E, A>>
    : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

}  // namespace detail
}  // namespace pybind11
