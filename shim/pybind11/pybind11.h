/* Minimal stand-in for the parts of pybind11 that pctsp/pypctsp.cpp uses.
 * pybind11 is not installed here; this header is a small, faithful subset
 * (argument checking and conversions follow pybind11's documented rules). */
#pragma once
#include <Python.h>
#include <exception>
#include <filesystem>
#include <limits>
#include <list>
#include <map>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace pybind11 {

struct error_already_set : std::exception {
    const char* what() const noexcept override { return "python error"; }
};
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };

class object;
class handle {
protected:
    PyObject* m = nullptr;
public:
    handle() = default;
    handle(PyObject* p) : m(p) {}
    PyObject* ptr() const { return m; }
    inline object attr(const char* name) const;
    template <typename... A> inline object operator()(A&&... a) const;
};
class object : public handle {
public:
    object() = default;
    struct steal_t {}; struct borrow_t {};
    object(PyObject* p, steal_t) : handle(p) {}
    object(PyObject* p, borrow_t) : handle(p) { Py_XINCREF(p); }
    object(const object& o) : handle(o.m) { Py_XINCREF(m); }
    object(object&& o) : handle(o.m) { o.m = nullptr; }
    object& operator=(object o) { std::swap(m, o.m); return *this; }
    ~object() { Py_XDECREF(m); }
    PyObject* release() { PyObject* p = m; m = nullptr; return p; }
};
template <typename T> T reinterpret_borrow(handle h) { return T(h.ptr(), object::borrow_t{}); }
template <typename T> T reinterpret_steal(handle h) { return T(h.ptr(), object::steal_t{}); }
class bool_ : public object {
public:
    bool_(bool b) : object(b ? Py_True : Py_False, borrow_t{}) {}
};

template <typename T, typename = void> struct caster;

template <> struct caster<bool> {
    static bool load(PyObject* o, bool& v) {
        if (o == Py_True) { v = true; return true; }
        if (o == Py_False) { v = false; return true; }
        if (o == Py_None) { v = false; return true; }
        if (Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) {
            int r = (*Py_TYPE(o)->tp_as_number->nb_bool)(o);
            if (r == 0 || r == 1) { v = r; return true; }
            PyErr_Clear();
        }
        return false;
    }
    static PyObject* cast(bool v) { return PyBool_FromLong(v); }
};
template <typename T>
struct caster<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static bool load(PyObject* o, T& v) {
        if (PyFloat_Check(o)) return false;
        PyObject* idx = PyNumber_Index(o);
        if (!idx) { PyErr_Clear(); return false; }
        bool ok = true;
        if (std::is_unsigned<T>::value) {
            unsigned long long x = PyLong_AsUnsignedLongLong(idx);
            if (PyErr_Occurred()) { PyErr_Clear(); ok = false; }
            else if (x > (unsigned long long)std::numeric_limits<T>::max()) ok = false;
            else v = (T)x;
        } else {
            long long x = PyLong_AsLongLong(idx);
            if (PyErr_Occurred()) { PyErr_Clear(); ok = false; }
            else if (x < (long long)std::numeric_limits<T>::min() || x > (long long)std::numeric_limits<T>::max()) ok = false;
            else v = (T)x;
        }
        Py_DECREF(idx);
        return ok;
    }
    static PyObject* cast(T v) {
        return std::is_unsigned<T>::value ? PyLong_FromUnsignedLongLong((unsigned long long)v) : PyLong_FromLongLong((long long)v);
    }
};
template <typename T>
struct caster<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static bool load(PyObject* o, T& v) {
        double d = PyFloat_AsDouble(o);
        if (PyErr_Occurred()) { PyErr_Clear(); return false; }
        v = (T)d; return true;
    }
    static PyObject* cast(T v) { return PyFloat_FromDouble((double)v); }
};
template <> struct caster<std::string> {
    static bool load(PyObject* o, std::string& v) {
        if (PyUnicode_Check(o)) {
            Py_ssize_t n; const char* s = PyUnicode_AsUTF8AndSize(o, &n);
            if (!s) { PyErr_Clear(); return false; }
            v.assign(s, n); return true;
        }
        if (PyBytes_Check(o)) { v.assign(PyBytes_AS_STRING(o), PyBytes_GET_SIZE(o)); return true; }
        return false;
    }
    static PyObject* cast(const std::string& s) { return PyUnicode_FromStringAndSize(s.data(), s.size()); }
};
template <> struct caster<std::filesystem::path> {
    static bool load(PyObject* o, std::filesystem::path& v) {
        PyObject* b = PyOS_FSPath(o);
        if (!b) { PyErr_Clear(); return false; }
        std::string s; bool ok = caster<std::string>::load(b, s);
        Py_DECREF(b); if (ok) v = s; return ok;
    }
    static PyObject* cast(const std::filesystem::path& p) { return caster<std::string>::cast(p.string()); }
};
template <> struct caster<object> {
    static bool load(PyObject* o, object& v) { v = reinterpret_borrow<object>(o); return true; }
    static PyObject* cast(object v) { return v.release(); }
};
inline bool is_seq(PyObject* o) { return PySequence_Check(o) && !PyUnicode_Check(o) && !PyBytes_Check(o) && !PyDict_Check(o); }
template <typename A, typename B> struct caster<std::pair<A, B>> {
    static bool load(PyObject* o, std::pair<A, B>& v) {
        if (!is_seq(o) || PySequence_Size(o) != 2) { PyErr_Clear(); return false; }
        PyObject* a = PySequence_GetItem(o, 0); PyObject* b = PySequence_GetItem(o, 1);
        bool ok = a && b && caster<A>::load(a, v.first) && caster<B>::load(b, v.second);
        Py_XDECREF(a); Py_XDECREF(b); return ok;
    }
    static PyObject* cast(const std::pair<A, B>& v) {
        PyObject* t = PyTuple_New(2);
        PyTuple_SET_ITEM(t, 0, caster<A>::cast(v.first)); PyTuple_SET_ITEM(t, 1, caster<B>::cast(v.second));
        return t;
    }
};
template <typename C, typename T> struct seq_caster {
    static bool load(PyObject* o, C& v) {
        if (!is_seq(o)) return false;
        Py_ssize_t n = PySequence_Size(o);
        v.clear();
        for (Py_ssize_t i = 0; i < n; i++) {
            PyObject* it = PySequence_GetItem(o, i);
            if (!it) { PyErr_Clear(); return false; }
            T x{}; bool ok = caster<T>::load(it, x); Py_DECREF(it);
            if (!ok) return false;
            v.push_back(std::move(x));
        }
        return true;
    }
    static PyObject* cast(const C& v) {
        PyObject* l = PyList_New(0);
        for (auto const& x : v) { PyObject* it = caster<T>::cast(x); PyList_Append(l, it); Py_DECREF(it); }
        return l;
    }
};
template <typename T> struct caster<std::vector<T>> : seq_caster<std::vector<T>, T> {};
template <typename T> struct caster<std::list<T>> : seq_caster<std::list<T>, T> {};
template <typename K, typename V> struct caster<std::map<K, V>> {
    static bool load(PyObject* o, std::map<K, V>& v) {
        if (!PyDict_Check(o)) return false;
        v.clear(); PyObject *k, *x; Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &x)) {
            K key{}; V val{};
            if (!caster<K>::load(k, key) || !caster<V>::load(x, val)) return false;
            v.emplace(std::move(key), std::move(val));
        }
        return true;
    }
    static PyObject* cast(const std::map<K, V>& v) {
        PyObject* d = PyDict_New();
        for (auto const& kv : v) {
            PyObject* k = caster<K>::cast(kv.first); PyObject* x = caster<V>::cast(kv.second);
            PyDict_SetItem(d, k, x); Py_DECREF(k); Py_DECREF(x);
        }
        return d;
    }
};

template <typename A> PyObject* to_py(A&& a) {
    using D = std::decay_t<A>;
    if constexpr (std::is_base_of<handle, D>::value) { Py_XINCREF(a.ptr()); return a.ptr(); }
    else return caster<D>::cast(a);
}
inline object handle::attr(const char* name) const {
    PyObject* r = PyObject_GetAttrString(m, name);
    if (!r) throw error_already_set();
    return object(r, object::steal_t{});
}
template <typename... A> inline object handle::operator()(A&&... a) const {
    PyObject* t = PyTuple_New(sizeof...(A));
    Py_ssize_t i = 0;
    (void)std::initializer_list<int>{(PyTuple_SET_ITEM(t, i++, to_py(std::forward<A>(a))), 0)...};
    PyObject* r = PyObject_CallObject(m, t);
    Py_DECREF(t);
    if (!r) throw error_already_set();
    return object(r, object::steal_t{});
}

struct fn_base { virtual ~fn_base() = default; virtual PyObject* call(PyObject* args) = 0; std::string name; PyMethodDef def; };
template <typename R, typename... A> struct fn_impl : fn_base {
    R (*f)(A...);
    template <size_t... I> PyObject* go(PyObject* args, std::index_sequence<I...>) {
        std::tuple<std::decay_t<A>...> vals;
        bool ok[] = {true, caster<std::decay_t<A>>::load(PyTuple_GET_ITEM(args, I), std::get<I>(vals))...};
        for (size_t i = 0; i <= sizeof...(A); i++) if (!ok[i]) {
            PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments (argument %d)", name.c_str(), (int)i);
            return nullptr;
        }
        if constexpr (std::is_void<R>::value) { f(std::get<I>(vals)...); Py_RETURN_NONE; }
        else return caster<std::decay_t<R>>::cast(f(std::get<I>(vals)...));
    }
    PyObject* call(PyObject* args) override {
        if (PyTuple_Size(args) != (Py_ssize_t)sizeof...(A)) {
            PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments: expected %d, got %d", name.c_str(), (int)sizeof...(A), (int)PyTuple_Size(args));
            return nullptr;
        }
        try { return go(args, std::index_sequence_for<A...>{}); }
        catch (error_already_set&) { return nullptr; }
        catch (std::bad_alloc& e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
        catch (std::domain_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::length_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
        catch (std::range_error& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
        catch (std::overflow_error& e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
        catch (std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
        catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
        return nullptr;
    }
};
inline PyObject* trampoline(PyObject* self, PyObject* args) {
    fn_base* f = (fn_base*)PyCapsule_GetPointer(self, "verif_fn");
    return f->call(args);
}
class module_ : public object {
public:
    using object::object;
    module_() = default;
    static module_ import(const char* name) {
        PyObject* p = PyImport_ImportModule(name);
        if (!p) throw error_already_set();
        return module_(p, steal_t{});
    }
    template <typename R, typename... A, typename... Extra>
    module_& def(const char* name, R (*f)(A...), Extra&&...) {
        auto* impl = new fn_impl<R, A...>();
        impl->f = f; impl->name = name;
        impl->def = PyMethodDef{impl->name.c_str(), trampoline, METH_VARARGS, nullptr};
        PyObject* cap = PyCapsule_New((fn_base*)impl, "verif_fn", nullptr);
        PyModule_AddObject(m, name, PyCFunction_New(&impl->def, cap));
        Py_DECREF(cap);
        return *this;
    }
};
using module = module_;
}

#define PYBIND11_MODULE(name, variable)                                          \
    static void verif_pybind_init_##name(::pybind11::module_&);                  \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() { \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        PyObject* p = PyModule_Create(&def);                                     \
        if (!p) return nullptr;                                                  \
        ::pybind11::module_ m(p, ::pybind11::object::borrow_t{});                \
        verif_pybind_init_##name(m);                                             \
        return p;                                                                \
    }                                                                            \
    static void verif_pybind_init_##name(::pybind11::module_& variable)
