// Arrays for the stand-in: NumPy's C API table, without NumPy's headers.
#pragma once
#include "pybind11.h"

namespace pybind11 {
namespace detail {
struct npy
{
    enum : int
    {
        c_contiguous = 0x0001,
        f_contiguous = 0x0002,
        owndata = 0x0004,
        forcecast_ = 0x0010,
        ensurearray = 0x0040,
        aligned = 0x0100,
        writeable = 0x0400
    };
    PyTypeObject* array_type;
    PyTypeObject* descr_type;
    PyObject* (*from_any)(PyObject*, PyObject*, int, int, int, PyObject*);
    static npy& get()
    {
        static npy api = lookup();
        return api;
    }

  private:
    static npy lookup()
    {
        object m(PyImport_ImportModule("numpy._core.multiarray"), object::stolen_t{});
        if (!m) {
            PyErr_Clear();
            m = checked_steal<object>(PyImport_ImportModule("numpy.core.multiarray"));
        }
        object c = m.attr("_ARRAY_API");
        void** t = (void**)PyCapsule_GetPointer(c.ptr(), nullptr);
        npy a;
        a.array_type = (PyTypeObject*)t[2];
        a.descr_type = (PyTypeObject*)t[3];
        a.from_any = (decltype(a.from_any))t[69];
        return a;
    }
};
inline bool
is_array(PyObject* p)
{
    return PyObject_TypeCheck(p, npy::get().array_type) != 0;
}
template<class T>
std::string
npy_name()
{
    if constexpr (std::is_same_v<T, bool>) {
        return "?";
    } else {
        return std::string(1, std::is_floating_point_v<T> ? 'f' : std::is_signed_v<T> ? 'i' : 'u') + std::to_string(sizeof(T));
    }
}
} // namespace detail

class dtype : public object
{
    static bool is(PyObject* p) { return PyObject_TypeCheck(p, detail::npy::get().descr_type) != 0; }

  public:
    PYBIND11_SHIM_OBJECT(dtype, object, is)
    dtype() = default;
    explicit dtype(const std::string& f)
      : dtype(from_args(str(f)))
    {
    }
    explicit dtype(const char* f)
      : dtype(std::string(f))
    {
    }
    static dtype from_args(object a) { return dtype(module_::import("numpy").attr("dtype")(a).release(), stolen_t{}); }
    template<class T>
    static dtype of()
    {
        return dtype(detail::npy_name<std::remove_cv_t<T>>());
    }
    ssize_t itemsize() const { return attr("itemsize").cast<ssize_t>(); }
    char kind() const { return attr("kind").cast<std::string>().at(0); }
    char char_() const { return attr("char").cast<std::string>().at(0); }
    char byteorder() const { return attr("byteorder").cast<std::string>().at(0); }
    int num() const { return attr("num").cast<int>(); }
    bool has_fields() const { return !attr("names").get().is_none(); }
};

class array : public buffer
{
  public:
    enum
    {
        c_style = detail::npy::c_contiguous,
        f_style = detail::npy::f_contiguous,
        forcecast = detail::npy::forcecast_
    };
    PYBIND11_SHIM_OBJECT(array, buffer, detail::is_array)
    static PyObject* raw_array(PyObject* p, int flags)
    {
        if (!p) {
            PyErr_SetString(PyExc_ValueError, "cannot create a pybind11::array from a nullptr");
            return nullptr;
        }
        return detail::npy::get().from_any(p, nullptr, 0, 0, detail::npy::ensurearray | flags, nullptr);
    }
    array()
      : buffer(handle(), stolen_t{})
    {
    }
    array(const object& o)
      : buffer(check_(o) ? o.inc_ref().ptr() : raw_array(o.ptr(), 0), stolen_t{})
    {
        if (!m_ptr) {
            throw error_already_set();
        }
    }
    static array ensure(handle h, int flags = 0)
    {
        auto r = reinterpret_steal<array>(raw_array(h.ptr(), flags));
        if (!r) {
            PyErr_Clear();
        }
        return r;
    }
    pybind11::dtype dtype() const { return pybind11::dtype(get("dtype").release(), stolen_t{}); }
    ssize_t size() const { return get("size").cast<ssize_t>(); }
    size_t itemsize() const { return get("itemsize").cast<size_t>(); }
    ssize_t nbytes() const { return get("nbytes").cast<ssize_t>(); }
    ssize_t ndim() const { return get("ndim").cast<ssize_t>(); }
    object base() const { return get("base"); }
    ssize_t shape(ssize_t i) const { return at("shape", i); }
    ssize_t strides(ssize_t i) const { return at("strides", i); }
    const ssize_t* shape() const { return info().shape; }
    const ssize_t* strides() const { return info().strides; }
    int flags() const { return get("flags").attr("num").cast<int>(); }
    bool writeable() const { return get("flags").attr("writeable").cast<bool>(); }
    bool owndata() const { return get("flags").attr("owndata").cast<bool>(); }
    const void* data() const
    {
        return (const void*)object(get("ctypes")).attr("data").cast<uintptr_t>();
    }
    void* mutable_data()
    {
        if (!writeable()) {
            throw std::domain_error("array is not writeable");
        }
        return const_cast<void*>(data());
    }
    array squeeze() { return array(object(attr("squeeze")())); }
    template<class... S>
    array reshape(S&&... s)
    {
        return array(object(attr("reshape")(std::forward<S>(s)...)));
    }

  private:
    object get(const char* n) const { return checked_steal<object>(PyObject_GetAttrString(m_ptr, n)); }
    ssize_t at(const char* n, ssize_t i) const
    {
        object t = get(n);
        if (i < 0 || i >= (ssize_t)len(t)) {
            throw index_error("invalid axis");
        }
        return t[(size_t)i].cast<ssize_t>();
    }
    // PyArrayObject's public head, unchanged since NumPy 1.0
    struct head
    {
        PyObject_HEAD
        char* data;
        int nd;
        ssize_t* shape;
        ssize_t* strides;
    };
    const head& info() const { return *(const head*)m_ptr; }
};

template<class T, int Flags = array::forcecast>
class array_t : public array
{
  public:
    static bool check_(handle h)
    {
        return array::check_(h) && (!(Flags & array::c_style) || array(h, borrowed_t{}).flags() & array::c_style) &&
               array(h, borrowed_t{}).dtype().equal(pybind11::dtype::of<T>());
    }
    array_t(handle h, borrowed_t)
      : array(h, borrowed_t{})
    {
    }
    array_t(handle h, stolen_t)
      : array(h, stolen_t{})
    {
    }
    array_t() = default;
    array_t(const object& o)
      : array(raw(o.ptr()), stolen_t{})
    {
        if (!m_ptr) {
            throw error_already_set();
        }
    }
    static array_t ensure(handle h)
    {
        auto r = reinterpret_steal<array_t>(raw(h.ptr()));
        if (!r) {
            PyErr_Clear();
        }
        return r;
    }
    const T* data() const { return (const T*)array::data(); }
    T* mutable_data() { return (T*)array::mutable_data(); }

  private:
    static PyObject* raw(PyObject* p)
    {
        return detail::npy::get().from_any(p, pybind11::dtype::of<T>().release().ptr(), 0, 0, detail::npy::ensurearray | Flags, nullptr);
    }
};

namespace detail {
template<class T, int F>
struct type_caster<array_t<T, F>>
{
    array_t<T, F> value;
    bool load(handle h, bool convert)
    {
        if (!h || (!convert && !array_t<T, F>::check_(h))) {
            return false;
        }
        value = array_t<T, F>::ensure(h);
        return (bool)value;
    }
    array_t<T, F>& ref() { return value; }
    static handle cast(const handle& h, return_value_policy, handle) { return h.inc_ref(); }
};
} // namespace detail
} // namespace pybind11
