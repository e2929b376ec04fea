// A stand-in for pybind11, which is not installed here: the part of its interface a binding like python/acquire-zarr-py.cpp
// uses (and some more, so that the binding can be written differently), over the CPython API. Written from pybind11's
// documentation; class semantics (ownership, conversions, exceptions) follow it.
#pragma once
#define PY_SSIZE_T_CLEAN
#if __has_include(<Python.h>)
#include <Python.h>
#include <structmember.h>
#else
#include "/usr/include/python3.12/Python.h"
#include "/usr/include/python3.12/structmember.h"
#endif

#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#define PYBIND11_NAMESPACE pybind11
#define PYBIND11_VERSION_MAJOR 2
#define PYBIND11_VERSION_MINOR 13
#define PYBIND11_VERSION_PATCH 0

namespace pybind11 {
class handle;
class object;
class str;
class tuple;
using ssize_t = Py_ssize_t;
using size_t = std::size_t;

// ------------------------------------------------------------------------------------------------------- exceptions
class error_already_set : public std::exception
{
    struct State
    {
        PyObject *type = nullptr, *value = nullptr, *trace = nullptr;
        std::string what;
        ~State()
        {
            if (type || value || trace) {
                PyGILState_STATE g = PyGILState_Ensure();
                Py_XDECREF(type);
                Py_XDECREF(value);
                Py_XDECREF(trace);
                PyGILState_Release(g);
            }
        }
    };
    std::shared_ptr<State> s_;

  public:
    error_already_set()
      : s_(std::make_shared<State>())
    {
        if (!PyErr_Occurred()) {
            throw std::runtime_error("error_already_set without a Python error");
        }
        PyErr_Fetch(&s_->type, &s_->value, &s_->trace);
        PyErr_NormalizeException(&s_->type, &s_->value, &s_->trace);
        if (PyObject* t = s_->value ? PyObject_Str(s_->value) : nullptr) {
            if (const char* c = PyUnicode_AsUTF8(t)) {
                s_->what = c;
            }
            Py_DECREF(t);
        }
        PyErr_Clear();
    }
    const char* what() const noexcept override { return s_->what.c_str(); }
    void restore()
    {
        Py_XINCREF(s_->type);
        Py_XINCREF(s_->value);
        Py_XINCREF(s_->trace);
        PyErr_Restore(s_->type, s_->value, s_->trace);
    }
    template<class H>
    bool matches(H exc) const
    {
        return PyErr_GivenExceptionMatches(s_->type, exc.ptr()) != 0;
    }
    void discard_as_unraisable(const char*)
    {
        restore();
        PyErr_WriteUnraisable(nullptr);
    }
    inline object type() const;
    inline object value() const;
};

class builtin_exception : public std::runtime_error
{
  public:
    using std::runtime_error::runtime_error;
    virtual void set_error() const = 0;
};
#define PYBIND11_SHIM_EXC(name, exc)                                                                                              \
    class name : public builtin_exception                                                                                         \
    {                                                                                                                             \
      public:                                                                                                                     \
        using builtin_exception::builtin_exception;                                                                               \
        name()                                                                                                                    \
          : name("")                                                                                                              \
        {                                                                                                                         \
        }                                                                                                                         \
        void set_error() const override { PyErr_SetString(exc, what()); }                                                         \
    };
PYBIND11_SHIM_EXC(stop_iteration, PyExc_StopIteration)
PYBIND11_SHIM_EXC(index_error, PyExc_IndexError)
PYBIND11_SHIM_EXC(key_error, PyExc_KeyError)
PYBIND11_SHIM_EXC(value_error, PyExc_ValueError)
PYBIND11_SHIM_EXC(type_error, PyExc_TypeError)
PYBIND11_SHIM_EXC(buffer_error, PyExc_BufferError)
PYBIND11_SHIM_EXC(import_error, PyExc_ImportError)
PYBIND11_SHIM_EXC(attribute_error, PyExc_AttributeError)
PYBIND11_SHIM_EXC(cast_error, PyExc_RuntimeError)
PYBIND11_SHIM_EXC(reference_cast_error, PyExc_RuntimeError)
#undef PYBIND11_SHIM_EXC

[[noreturn]] inline void
pybind11_fail(const std::string& m)
{
    throw std::runtime_error(m);
}
inline void
set_error(PyObject* type, const char* m)
{
    PyErr_SetString(type, m);
}

// ---------------------------------------------------------------------------------------------------------- handles
class handle;
class object;
class str;
class tuple;
class args_proxy;

namespace detail {
struct str_attr_policy;
struct obj_attr_policy;
struct item_policy;
template<class P>
class accessor;
using str_attr_accessor = accessor<str_attr_policy>;
using obj_attr_accessor = accessor<obj_attr_policy>;
using item_accessor = accessor<item_policy>;
class py_iterator;

struct pyobject_tag
{
};
template<class D>
class object_api : public pyobject_tag
{
    const D& d() const { return static_cast<const D&>(*this); }
    PyObject* p() const { return d().ptr(); }

  public:
    inline py_iterator begin() const;
    inline py_iterator end() const;
    inline item_accessor operator[](handle key) const;
    inline item_accessor operator[](const char* key) const;
    inline item_accessor operator[](const std::string& key) const;
    inline item_accessor operator[](size_t i) const;
    inline item_accessor operator[](int i) const;
    inline str_attr_accessor attr(const char* key) const;
    inline str_attr_accessor attr(const std::string& key) const;
    inline obj_attr_accessor attr(handle key) const;
    template<class T>
    bool contains(T&& item) const;
    template<class... A>
    object operator()(A&&... a) const;
    bool is_none() const { return p() == Py_None; }
    template<class O>
    bool is(const O& o) const
    {
        return p() == o.ptr();
    }
    template<class O>
    bool equal(const O& o) const
    {
        int r = PyObject_RichCompareBool(p(), o.ptr(), Py_EQ);
        if (r < 0) {
            throw error_already_set();
        }
        return r == 1;
    }
    template<class O>
    bool not_equal(const O& o) const
    {
        return !equal(o);
    }
    inline str_attr_accessor doc() const;
    int ref_count() const { return (int)Py_REFCNT(p()); }
    inline handle get_type() const;
};
} // namespace detail

class handle : public detail::object_api<handle>
{
  protected:
    PyObject* m_ptr = nullptr;

  public:
    handle() = default;
    handle(PyObject* p)
      : m_ptr(p)
    {
    }
    handle(std::nullptr_t) {}
    PyObject* ptr() const { return m_ptr; }
    PyObject*& ptr() { return m_ptr; }
    const handle& inc_ref() const
    {
        Py_XINCREF(m_ptr);
        return *this;
    }
    const handle& dec_ref() const
    {
        Py_XDECREF(m_ptr);
        return *this;
    }
    explicit operator bool() const { return m_ptr != nullptr; }
    template<class T>
    T cast() const;
    bool operator==(const handle& h) const { return m_ptr == h.m_ptr; }
    bool operator!=(const handle& h) const { return m_ptr != h.m_ptr; }
};

class object : public handle
{
  public:
    struct borrowed_t
    {
    };
    struct stolen_t
    {
    };
    object() = default;
    object(handle h, bool borrow)
      : handle(h)
    {
        if (borrow) {
            inc_ref();
        }
    }
    object(handle h, borrowed_t)
      : handle(h)
    {
        inc_ref();
    }
    object(handle h, stolen_t)
      : handle(h)
    {
    }
    object(const object& o)
      : handle(o)
    {
        inc_ref();
    }
    object(object&& o) noexcept
      : handle(o)
    {
        o.m_ptr = nullptr;
    }
    ~object() { dec_ref(); }
    object& operator=(const object& o)
    {
        PyObject* old = m_ptr;
        m_ptr = o.m_ptr;
        inc_ref();
        Py_XDECREF(old);
        return *this;
    }
    object& operator=(object&& o) noexcept
    {
        if (this != &o) {
            PyObject* old = m_ptr;
            m_ptr = o.m_ptr;
            o.m_ptr = nullptr;
            Py_XDECREF(old);
        }
        return *this;
    }
    handle release()
    {
        PyObject* t = m_ptr;
        m_ptr = nullptr;
        return handle(t);
    }
    template<class T>
    T cast() const&;
    template<class T>
    T cast() &&;
};

inline object
error_already_set::type() const
{
    return object(s_->type, object::borrowed_t{});
}
inline object
error_already_set::value() const
{
    return object(s_->value, object::borrowed_t{});
}

template<class T>
T
reinterpret_borrow(handle h)
{
    return T(h, object::borrowed_t{});
}
template<class T>
T
reinterpret_steal(handle h)
{
    return T(h, object::stolen_t{});
}
template<class T>
T
checked_steal(PyObject* p)
{
    if (!p) {
        throw error_already_set();
    }
    return reinterpret_steal<T>(p);
}

template<class T>
bool isinstance(handle h);

// --------------------------------------------------------------------------------------------------- object wrappers
#define PYBIND11_SHIM_OBJECT(Name, Parent, check)                                                                                 \
    Name(handle h, borrowed_t)                                                                                                    \
      : Parent(h, borrowed_t{})                                                                                                   \
    {                                                                                                                             \
    }                                                                                                                             \
    Name(handle h, stolen_t)                                                                                                      \
      : Parent(h, stolen_t{})                                                                                                     \
    {                                                                                                                             \
    }                                                                                                                             \
    static bool check_(handle h) { return h.ptr() != nullptr && check(h.ptr()); }
#define PYBIND11_SHIM_CONVERT(Name, Parent, check, conv)                                                                          \
    PYBIND11_SHIM_OBJECT(Name, Parent, check)                                                                                     \
    Name(const object& o)                                                                                                         \
      : Parent(check_(o) ? o.inc_ref().ptr() : conv(o.ptr()), stolen_t{})                                                         \
    {                                                                                                                             \
        if (!m_ptr) {                                                                                                             \
            throw error_already_set();                                                                                            \
        }                                                                                                                         \
    }                                                                                                                             \
    Name(object&& o)                                                                                                              \
      : Name(static_cast<const object&>(o))                                                                                       \
    {                                                                                                                             \
    }                                                                                                                             \
    template<class P>                                                                                                             \
    Name(const detail::accessor<P>& a)                                                                                            \
      : Name(object(a))                                                                                                           \
    {                                                                                                                             \
    }

inline int
shim_true(PyObject*)
{
    return 1;
}

class none : public object
{
    static bool is(PyObject* p) { return p == Py_None; }

  public:
    PYBIND11_SHIM_OBJECT(none, object, is)
    none()
      : object(Py_None, borrowed_t{})
    {
    }
};
class ellipsis : public object
{
    static bool is(PyObject* p) { return p == Py_Ellipsis; }

  public:
    PYBIND11_SHIM_OBJECT(ellipsis, object, is)
    ellipsis()
      : object(Py_Ellipsis, borrowed_t{})
    {
    }
};

class str : public object
{
    static PyObject* conv(PyObject* p) { return PyObject_Str(p); }
    static bool chk(PyObject* p) { return PyUnicode_Check(p) || PyBytes_Check(p); }

  public:
    PYBIND11_SHIM_CONVERT(str, object, PyUnicode_Check, conv)
    str(const char* c = "")
      : object(PyUnicode_FromString(c), stolen_t{})
    {
        if (!m_ptr) {
            throw error_already_set();
        }
    }
    str(const char* c, size_t n)
      : object(PyUnicode_FromStringAndSize(c, (ssize_t)n), stolen_t{})
    {
        if (!m_ptr) {
            throw error_already_set();
        }
    }
    str(const std::string& s)
      : str(s.data(), s.size())
    {
    }
    str(std::string_view s)
      : str(s.data(), s.size())
    {
    }
    explicit str(handle h)
      : object(PyObject_Str(h.ptr()), stolen_t{})
    {
        if (!m_ptr) {
            throw error_already_set();
        }
    }
    operator std::string() const
    {
        ssize_t n = 0;
        const char* c = PyUnicode_AsUTF8AndSize(m_ptr, &n);
        if (!c) {
            throw error_already_set();
        }
        return std::string(c, (size_t)n);
    }
    template<class... A>
    str format(A&&... a) const;
};

class bytes : public object
{
    static PyObject* conv(PyObject* p) { return PyObject_Bytes(p); }

  public:
    PYBIND11_SHIM_CONVERT(bytes, object, PyBytes_Check, conv)
    bytes(const char* c, size_t n)
      : object(PyBytes_FromStringAndSize(c, (ssize_t)n), stolen_t{})
    {
    }
    bytes(const char* c = "")
      : bytes(c, strlen(c))
    {
    }
    bytes(const std::string& s)
      : bytes(s.data(), s.size())
    {
    }
    operator std::string() const { return std::string(PyBytes_AS_STRING(m_ptr), (size_t)PyBytes_GET_SIZE(m_ptr)); }
    operator std::string_view() const { return { PyBytes_AS_STRING(m_ptr), (size_t)PyBytes_GET_SIZE(m_ptr) }; }
};

class int_ : public object
{
    static PyObject* conv(PyObject* p) { return PyNumber_Long(p); }

  public:
    PYBIND11_SHIM_CONVERT(int_, object, PyLong_Check, conv)
    int_()
      : int_(0)
    {
    }
    template<class T>
        requires std::is_integral_v<T> || std::is_enum_v<T>
    int_(T v)
      : object(std::is_signed_v<T> ? PyLong_FromLongLong((long long)v) : PyLong_FromUnsignedLongLong((unsigned long long)v), stolen_t{})
    {
    }
    template<class T>
        requires std::is_integral_v<T>
    operator T() const
    {
        return this->template cast<T>();
    }
};
class float_ : public object
{
    static PyObject* conv(PyObject* p) { return PyNumber_Float(p); }

  public:
    PYBIND11_SHIM_CONVERT(float_, object, PyFloat_Check, conv)
    float_(double d = 0)
      : object(PyFloat_FromDouble(d), stolen_t{})
    {
    }
    operator double() const { return PyFloat_AsDouble(m_ptr); }
};
class bool_ : public object
{
    static PyObject* conv(PyObject* p)
    {
        int r = PyObject_IsTrue(p);
        return r < 0 ? nullptr : PyBool_FromLong(r);
    }

  public:
    PYBIND11_SHIM_CONVERT(bool_, object, PyBool_Check, conv)
    bool_(bool b = false)
      : object(PyBool_FromLong(b), stolen_t{})
    {
    }
    operator bool() const { return m_ptr == Py_True; }
};

inline size_t
len(handle h)
{
    ssize_t n = PyObject_Length(h.ptr());
    if (n < 0) {
        throw error_already_set();
    }
    return (size_t)n;
}

class tuple : public object
{
  public:
    PYBIND11_SHIM_CONVERT(tuple, object, PyTuple_Check, PySequence_Tuple)
    explicit tuple(size_t n = 0)
      : object(PyTuple_New((ssize_t)n), stolen_t{})
    {
    }
    size_t size() const { return (size_t)PyTuple_GET_SIZE(m_ptr); }
    bool empty() const { return size() == 0; }
};
class list : public object
{
  public:
    PYBIND11_SHIM_CONVERT(list, object, PyList_Check, PySequence_List)
    explicit list(size_t n = 0)
      : object(PyList_New((ssize_t)n), stolen_t{})
    {
    }
    size_t size() const { return (size_t)PyList_GET_SIZE(m_ptr); }
    bool empty() const { return size() == 0; }
    template<class T>
    void append(T&& v);
    void clear() const
    {
        if (PyList_SetSlice(m_ptr, 0, PyList_Size(m_ptr), nullptr)) {
            throw error_already_set();
        }
    }
};
class dict : public object
{
    static PyObject* conv(PyObject* p) { return PyObject_CallFunctionObjArgs((PyObject*)&PyDict_Type, p, nullptr); }

  public:
    PYBIND11_SHIM_CONVERT(dict, object, PyDict_Check, conv)
    dict()
      : object(PyDict_New(), stolen_t{})
    {
    }
    size_t size() const { return (size_t)PyDict_Size(m_ptr); }
    bool empty() const { return size() == 0; }
    template<class T>
    bool contains(T&& key) const;
    void clear() { PyDict_Clear(m_ptr); }
    // iteration gives (key, value)
    struct it
    {
        PyObject* d = nullptr;
        ssize_t pos = -1;
        PyObject *k = nullptr, *v = nullptr;
        std::pair<handle, handle> operator*() const { return { k, v }; }
        it& operator++()
        {
            if (!PyDict_Next(d, &pos, &k, &v)) {
                pos = -1;
            }
            return *this;
        }
        bool operator!=(const it& o) const { return pos != o.pos; }
        bool operator==(const it& o) const { return pos == o.pos; }
    };
    it begin() const
    {
        it i{ m_ptr, 0 };
        ++i;
        return i;
    }
    it end() const { return {}; }
};
class set : public object
{
  public:
    PYBIND11_SHIM_CONVERT(set, object, PySet_Check, PySet_New)
    set()
      : object(PySet_New(nullptr), stolen_t{})
    {
    }
    size_t size() const { return (size_t)PySet_Size(m_ptr); }
};
class sequence : public object
{
  public:
    PYBIND11_SHIM_CONVERT(sequence, object, PySequence_Check, PySequence_List)
    size_t size() const { return len(*this); }
    bool empty() const { return size() == 0; }
};
inline bool
shim_iterable(PyObject* p)
{
    PyObject* i = PyObject_GetIter(p);
    if (!i) {
        PyErr_Clear();
        return false;
    }
    Py_DECREF(i);
    return true;
}
class iterable : public object
{
  public:
    PYBIND11_SHIM_OBJECT(iterable, object, shim_iterable)
    iterable() = default;
};
class iterator : public object
{
  public:
    PYBIND11_SHIM_OBJECT(iterator, object, PyIter_Check)
    iterator() = default;
};
class slice : public object
{
  public:
    PYBIND11_SHIM_OBJECT(slice, object, PySlice_Check)
    bool compute(size_t length, size_t* start, size_t* stop, size_t* step, size_t* n) const
    {
        ssize_t a, b, c;
        if (PySlice_Unpack(m_ptr, &a, &b, &c) < 0) {
            return false;
        }
        *n = (size_t)PySlice_AdjustIndices((ssize_t)length, &a, &b, c);
        *start = (size_t)a;
        *stop = (size_t)b;
        *step = (size_t)c;
        return true;
    }
};
class args : public tuple
{
  public:
    PYBIND11_SHIM_OBJECT(args, tuple, PyTuple_Check)
    args() = default;
};
class kwargs : public dict
{
  public:
    PYBIND11_SHIM_OBJECT(kwargs, dict, PyDict_Check)
    kwargs() = default;
};
class function : public object
{
  public:
    PYBIND11_SHIM_OBJECT(function, object, PyCallable_Check)
    function() = default;
};
class type : public object
{
  public:
    PYBIND11_SHIM_OBJECT(type, object, PyType_Check)
    static handle handle_of(handle h) { return handle((PyObject*)Py_TYPE(h.ptr())); }
    static type of(handle h) { return type(handle_of(h), borrowed_t{}); }
    template<class T>
    static type of();
};
class capsule : public object
{
  public:
    PYBIND11_SHIM_OBJECT(capsule, object, PyCapsule_CheckExact)
    capsule(const void* v, void (*destroy)(void*))
      : object(PyCapsule_New(const_cast<void*>(v),
                             nullptr,
                             [](PyObject* o) {
                                 auto d = (void (*)(void*))PyCapsule_GetContext(o);
                                 d(PyCapsule_GetPointer(o, nullptr));
                             }),
               stolen_t{})
    {
        PyCapsule_SetContext(m_ptr, (void*)destroy);
    }
    template<class T>
    T* get_pointer() const
    {
        return static_cast<T*>(PyCapsule_GetPointer(m_ptr, PyCapsule_GetName(m_ptr)));
    }
};

struct buffer_info
{
    void* ptr = nullptr;
    ssize_t itemsize = 0, size = 0;
    std::string format;
    ssize_t ndim = 0;
    std::vector<ssize_t> shape, strides;
    bool readonly = false;
    std::shared_ptr<Py_buffer> view_;
    Py_buffer* view() const { return view_.get(); }
};
class buffer : public object
{
  public:
    PYBIND11_SHIM_OBJECT(buffer, object, PyObject_CheckBuffer)
    buffer() = default;
    buffer_info request(bool writable = false) const
    {
        int flags = PyBUF_STRIDES | PyBUF_FORMAT | (writable ? PyBUF_WRITABLE : 0);
        auto* v = new Py_buffer();
        if (PyObject_GetBuffer(m_ptr, v, flags) != 0) {
            delete v;
            throw error_already_set();
        }
        buffer_info b;
        b.view_ = std::shared_ptr<Py_buffer>(v, [](Py_buffer* x) {
            PyBuffer_Release(x);
            delete x;
        });
        b.ptr = v->buf;
        b.itemsize = v->itemsize;
        b.size = 1;
        b.format = v->format ? v->format : "B";
        b.ndim = v->ndim;
        b.readonly = v->readonly != 0;
        for (ssize_t i = 0; i < b.ndim; ++i) {
            b.shape.push_back(v->shape[i]);
            b.size *= v->shape[i];
        }
        if (v->strides) {
            b.strides.assign(v->strides, v->strides + b.ndim);
        } else {
            b.strides.assign((size_t)b.ndim, b.itemsize);
            for (ssize_t i = b.ndim - 1; i > 0; --i) {
                b.strides[(size_t)i - 1] = b.strides[(size_t)i] * b.shape[(size_t)i];
            }
        }
        return b;
    }
};
class memoryview : public object
{
  public:
    PYBIND11_SHIM_CONVERT(memoryview, object, PyMemoryView_Check, PyMemoryView_FromObject)
};

// --------------------------------------------------------------------------------------------------------- accessors
namespace detail {
struct str_attr_policy
{
    using key_type = std::string;
    static object get(handle o, const key_type& k) { return checked_steal<object>(PyObject_GetAttrString(o.ptr(), k.c_str())); }
    static void set(handle o, const key_type& k, handle v)
    {
        if (PyObject_SetAttrString(o.ptr(), k.c_str(), v.ptr())) {
            throw error_already_set();
        }
    }
};
struct obj_attr_policy
{
    using key_type = object;
    static object get(handle o, handle k) { return checked_steal<object>(PyObject_GetAttr(o.ptr(), k.ptr())); }
    static void set(handle o, handle k, handle v)
    {
        if (PyObject_SetAttr(o.ptr(), k.ptr(), v.ptr())) {
            throw error_already_set();
        }
    }
};
struct item_policy
{
    using key_type = object;
    static object get(handle o, handle k) { return checked_steal<object>(PyObject_GetItem(o.ptr(), k.ptr())); }
    static void set(handle o, handle k, handle v)
    {
        if (PyTuple_CheckExact(o.ptr())) { // a tuple being filled
            Py_INCREF(v.ptr());
            if (PyTuple_SetItem(o.ptr(), PyLong_AsSsize_t(k.ptr()), v.ptr())) {
                throw error_already_set();
            }
            return;
        }
        if (PyObject_SetItem(o.ptr(), k.ptr(), v.ptr())) {
            throw error_already_set();
        }
    }
};
template<class P>
class accessor : public object_api<accessor<P>>
{
    object o_;
    typename P::key_type k_;
    mutable object cache_;

  public:
    accessor(handle o, typename P::key_type k)
      : o_(o, object::borrowed_t{})
      , k_(std::move(k))
    {
    }
    accessor(const accessor&) = default;
    PyObject* ptr() const { return get().ptr(); }
    object& get() const
    {
        if (!cache_) {
            cache_ = P::get(o_, k_);
        }
        return cache_;
    }
    operator object() const { return get(); }
    template<class T>
    T cast() const
    {
        return get().template cast<T>();
    }
    template<class T>
    void operator=(T&& v) &&;
    template<class T>
    void operator=(T&& v) &;
    void operator=(const accessor& a) &&;
};
class py_iterator
{
    object it_, cur_;
    void next()
    {
        cur_ = object(PyIter_Next(it_.ptr()), object::stolen_t{});
        if (!cur_ && PyErr_Occurred()) {
            throw error_already_set();
        }
    }

  public:
    using iterator_category = std::input_iterator_tag;
    using value_type = handle;
    using difference_type = ssize_t;
    using reference = handle;
    using pointer = const handle*;
    py_iterator() = default;
    explicit py_iterator(handle h)
      : it_(checked_steal<object>(PyObject_GetIter(h.ptr())))
    {
        next();
    }
    handle operator*() const { return cur_; }
    py_iterator& operator++()
    {
        next();
        return *this;
    }
    bool operator==(const py_iterator& o) const { return cur_.ptr() == o.cur_.ptr(); }
    bool operator!=(const py_iterator& o) const { return cur_.ptr() != o.cur_.ptr(); }
};
template<class D>
py_iterator
object_api<D>::begin() const
{
    return py_iterator(handle(p()));
}
template<class D>
py_iterator
object_api<D>::end() const
{
    return {};
}
template<class D>
item_accessor
object_api<D>::operator[](handle key) const
{
    return { p(), object(key, object::borrowed_t{}) };
}
template<class D>
item_accessor
object_api<D>::operator[](const char* key) const
{
    return { p(), str(key) };
}
template<class D>
item_accessor
object_api<D>::operator[](size_t i) const
{
    return { p(), int_(i) };
}
template<class D>
str_attr_accessor
object_api<D>::attr(const char* key) const
{
    return { p(), key };
}
template<class D>
item_accessor
object_api<D>::operator[](const std::string& key) const
{
    return (*this)[key.c_str()];
}
template<class D>
item_accessor
object_api<D>::operator[](int i) const
{
    return (*this)[(size_t)i];
}
template<class D>
str_attr_accessor
object_api<D>::attr(const std::string& key) const
{
    return attr(key.c_str());
}
template<class D>
obj_attr_accessor
object_api<D>::attr(handle key) const
{
    return { p(), object(key, object::borrowed_t{}) };
}
template<class D>
str_attr_accessor
object_api<D>::doc() const
{
    return attr("__doc__");
}
template<class D>
handle
object_api<D>::get_type() const
{
    return type::handle_of(p());
}
} // namespace detail

inline bool
hasattr(handle o, const char* n)
{
    return PyObject_HasAttrString(o.ptr(), n) == 1;
}
inline void
setattr(handle o, const char* n, handle v)
{
    if (PyObject_SetAttrString(o.ptr(), n, v.ptr())) {
        throw error_already_set();
    }
}
inline object
getattr(handle o, const char* n)
{
    return checked_steal<object>(PyObject_GetAttrString(o.ptr(), n));
}
inline object
getattr(handle o, const char* n, handle d)
{
    if (PyObject* r = PyObject_GetAttrString(o.ptr(), n)) {
        return reinterpret_steal<object>(r);
    }
    PyErr_Clear();
    return reinterpret_borrow<object>(d);
}
inline str
repr(handle h)
{
    return checked_steal<str>(PyObject_Repr(h.ptr()));
}
inline ssize_t
hash(handle h)
{
    auto r = PyObject_Hash(h.ptr());
    if (r == -1) {
        throw error_already_set();
    }
    return r;
}
inline iterator
iter(handle h)
{
    return checked_steal<iterator>(PyObject_GetIter(h.ptr()));
}

// ---------------------------------------------------------------------------------------------------------- policies
enum class return_value_policy : uint8_t
{
    automatic = 0,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};
struct arg;
struct arg_v;
struct arg
{
    const char* name;
    bool none_ok = true, no_conv = false;
    constexpr explicit arg(const char* n = nullptr)
      : name(n)
    {
    }
    arg& noconvert(bool b = true)
    {
        no_conv = b;
        return *this;
    }
    arg& none(bool b = true)
    {
        none_ok = b;
        return *this;
    }
    template<class T>
    arg_v operator=(T&& v) const;
};
struct arg_v : arg
{
    object value;
    arg_v(const arg& a, object v)
      : arg(a)
      , value(std::move(v))
    {
    }
};
struct kw_only
{
};
struct pos_only
{
};
struct name
{
    const char* value;
    explicit name(const char* v)
      : value(v)
    {
    }
};
struct scope
{
    handle value;
    explicit scope(handle h)
      : value(h)
    {
    }
};
struct sibling
{
    handle value;
    explicit sibling(handle h)
      : value(h)
    {
    }
};
struct doc
{
    const char* value;
    explicit doc(const char* v)
      : value(v)
    {
    }
};
struct is_method
{
    handle value;
    explicit is_method(handle h)
      : value(h)
    {
    }
};
struct is_operator
{
};
struct is_final
{
};
struct prepend
{
};
struct dynamic_attr
{
};
struct buffer_protocol
{
};
struct multiple_inheritance
{
};
struct module_local
{
    explicit module_local(bool = true) {}
};
struct arithmetic
{
};
template<class... Ts>
struct call_guard
{
};
template<size_t Nurse, size_t Patient>
struct keep_alive
{
};
namespace literals {
constexpr arg
operator"" _a(const char* n, size_t)
{
    return arg(n);
}
inline str
operator"" _s(const char* s, size_t n)
{
    return str(s, n);
}
} // namespace literals

class gil_scoped_acquire
{
    PyGILState_STATE s_;

  public:
    gil_scoped_acquire()
      : s_(PyGILState_Ensure())
    {
    }
    gil_scoped_acquire(const gil_scoped_acquire&) = delete;
    ~gil_scoped_acquire() { PyGILState_Release(s_); }
    void disarm() {}
};
class gil_scoped_release
{
    PyThreadState* s_;

  public:
    explicit gil_scoped_release(bool = false)
      : s_(PyEval_SaveThread())
    {
    }
    gil_scoped_release(const gil_scoped_release&) = delete;
    ~gil_scoped_release() { PyEval_RestoreThread(s_); }
    void disarm() {}
};

// ------------------------------------------------------------------------------------------------ registered classes
namespace detail {
struct instance
{
    PyObject_HEAD
    void* value;
    std::shared_ptr<void>* holder; // owns value, or empty when value is a reference into the parent
    PyObject* parent;
    PyObject* weak;
    PyObject* attrs;
};

struct type_info
{
    PyTypeObject* type = nullptr;
    std::string name;
    std::vector<std::pair<std::type_index, void* (*)(void*)>> bases; // upcasts
    std::vector<std::function<PyObject*(PyObject*)>> conversions;    // implicitly_convertible
};
inline std::unordered_map<std::type_index, type_info>&
types()
{
    static auto* m = new std::unordered_map<std::type_index, type_info>;
    return *m;
}
inline type_info*
find_type(const std::type_info& t)
{
    auto it = types().find(t);
    return it == types().end() ? nullptr : &it->second;
}
inline const std::type_index*
cpp_type_of(PyTypeObject* t)
{
    for (; t; t = t->tp_base) {
        for (auto& [k, v] : types()) {
            if (v.type == t) {
                return &k;
            }
        }
    }
    return nullptr;
}
inline PyObject*
instance_new(PyTypeObject* t, PyObject*, PyObject*)
{
    return t->tp_alloc(t, 0);
}
inline void
instance_dealloc(PyObject* self)
{
    auto* i = (instance*)self;
    PyTypeObject* t = Py_TYPE(self);
    if (i->weak) {
        PyObject_ClearWeakRefs(self);
    }
    PyObject *et, *ev, *tb; // a destructor must not lose a pending exception
    PyErr_Fetch(&et, &ev, &tb);
    delete i->holder;
    PyErr_Restore(et, ev, tb);
    Py_CLEAR(i->parent);
    Py_CLEAR(i->attrs);
    t->tp_free(self);
    Py_DECREF(t);
}
inline int
instance_init(PyObject* self, PyObject*, PyObject*)
{
    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
    return -1;
}
inline void*
upcast(std::type_index from, std::type_index to, void* v)
{
    if (from == to) {
        return v;
    }
    auto it = types().find(from);
    if (it != types().end()) {
        for (auto& [b, f] : it->second.bases) {
            if (void* r = upcast(b, to, f(v))) {
                return r;
            }
        }
    }
    return nullptr;
}
// the C++ object in a Python one, if it is (derived from) a T
inline void*
value_of(handle h, const std::type_info& want)
{
    auto* ti = find_type(want);
    if (!ti || !PyObject_TypeCheck(h.ptr(), ti->type)) {
        return nullptr;
    }
    auto* from = cpp_type_of(Py_TYPE(h.ptr()));
    auto* i = (instance*)h.ptr();
    if (!i->value) {
        throw type_error(std::string(Py_TYPE(h.ptr())->tp_name) + ".__init__() must be called when overriding __init__");
    }
    return from ? upcast(*from, want, i->value) : nullptr;
}
inline std::string
type_name(const std::type_info& t)
{
    auto* ti = find_type(t);
    return ti ? ti->name : t.name();
}
template<class T>
PyObject*
make_instance(T* v, std::shared_ptr<void> holder, handle parent)
{
    auto* ti = find_type(typeid(T));
    if (!ti) {
        PyErr_SetString(PyExc_TypeError, ("Unregistered type : " + std::string(typeid(T).name())).c_str());
        throw error_already_set();
    }
    PyObject* o = ti->type->tp_alloc(ti->type, 0);
    if (!o) {
        throw error_already_set();
    }
    auto* i = (instance*)o;
    i->value = const_cast<void*>((const void*)v);
    i->holder = new std::shared_ptr<void>(std::move(holder));
    if (parent) {
        i->parent = parent.inc_ref().ptr();
    }
    return o;
}

// ------------------------------------------------------------------------------------------------------------ casters
template<class T>
using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<class T>
using intrinsic = bare<std::remove_pointer_t<bare<T>>>;

struct cast_is_temporary
{
};

// classes registered with class_
template<class T>
struct type_caster_base
{
    using is_class = void;
    T* value = nullptr;
    object keep;
    bool load(handle h, bool convert)
    {
        if (!h) {
            return false;
        }
        if (h.is_none()) {
            value = nullptr;
            return convert;
        }
        if (void* v = value_of(h, typeid(T))) {
            value = (T*)v;
            return true;
        }
        if (convert) {
            if (auto* ti = find_type(typeid(T))) {
                for (auto& f : ti->conversions) {
                    if (PyObject* o = f(h.ptr())) {
                        keep = object(o, object::stolen_t{});
                        value = (T*)value_of(keep, typeid(T));
                        return value != nullptr;
                    }
                    PyErr_Clear();
                }
            }
        }
        return false;
    }
    T& ref()
    {
        if (!value) {
            throw reference_cast_error("");
        }
        return *value;
    }
    static handle cast(const T& v, return_value_policy p, handle parent)
    {
        switch (p) {
            case return_value_policy::reference: return make_instance<T>(const_cast<T*>(&v), nullptr, {});
            case return_value_policy::reference_internal: return make_instance<T>(const_cast<T*>(&v), nullptr, parent);
            default:
                if constexpr (std::is_copy_constructible_v<T>) {
                    auto s = std::make_shared<T>(v);
                    return make_instance<T>(s.get(), s, {});
                } else {
                    throw cast_error("return_value_policy = copy, but type is non-copyable!");
                }
        }
    }
    static handle cast(T&& v, return_value_policy, handle)
    {
        if constexpr (std::is_move_constructible_v<T>) {
            auto s = std::make_shared<T>(std::move(v));
            return make_instance<T>(s.get(), s, {});
        } else {
            throw cast_error("type is neither movable nor copyable!");
        }
    }
    static handle cast_ptr(T* v, return_value_policy p, handle parent)
    {
        if (!v) {
            return none().release();
        }
        switch (p) {
            case return_value_policy::automatic:
            case return_value_policy::take_ownership: {
                std::shared_ptr<T> s(v);
                return make_instance<T>(v, s, {});
            }
            case return_value_policy::automatic_reference:
            case return_value_policy::reference: return make_instance<T>(v, nullptr, {});
            case return_value_policy::reference_internal: return make_instance<T>(v, nullptr, parent);
            default: return cast(*v, p, parent);
        }
    }
};

template<class T, class = void>
struct type_caster : type_caster_base<T>
{
};

template<class T>
struct type_caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>>
{
    T value{};
    bool load(handle h, bool convert)
    {
        if (!h || PyFloat_Check(h.ptr())) {
            return false;
        }
        if (!convert && !PyLong_Check(h.ptr()) && !PyIndex_Check(h.ptr())) {
            return false;
        }
        PyObject* n = PyLong_Check(h.ptr()) ? h.inc_ref().ptr() : PyIndex_Check(h.ptr()) ? PyNumber_Index(h.ptr()) : nullptr;
        if (!n) {
            PyErr_Clear();
            if (!convert || !PyNumber_Check(h.ptr())) {
                return false;
            }
            n = PyNumber_Long(h.ptr());
            if (!n) {
                PyErr_Clear();
                return false;
            }
        }
        object hold(n, object::stolen_t{});
        if constexpr (std::is_signed_v<T>) {
            long long v = PyLong_AsLongLong(n);
            if ((v == -1 && PyErr_Occurred()) || v < (long long)std::numeric_limits<T>::min() || v > (long long)std::numeric_limits<T>::max()) {
                PyErr_Clear();
                return false;
            }
            value = (T)v;
        } else {
            unsigned long long v = PyLong_AsUnsignedLongLong(n);
            if ((v == (unsigned long long)-1 && PyErr_Occurred()) || v > (unsigned long long)std::numeric_limits<T>::max()) {
                PyErr_Clear();
                return false;
            }
            value = (T)v;
        }
        return true;
    }
    T& ref() { return value; }
    static handle cast(T v, return_value_policy, handle)
    {
        return std::is_signed_v<T> ? PyLong_FromLongLong((long long)v) : PyLong_FromUnsignedLongLong((unsigned long long)v);
    }
};
template<class T>
struct type_caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    T value{};
    bool load(handle h, bool convert)
    {
        if (!h || (!convert && !PyFloat_Check(h.ptr()))) {
            return false;
        }
        double d = PyFloat_AsDouble(h.ptr());
        if (d == -1.0 && PyErr_Occurred()) {
            PyErr_Clear();
            return false;
        }
        value = (T)d;
        return true;
    }
    T& ref() { return value; }
    static handle cast(T v, return_value_policy, handle) { return PyFloat_FromDouble((double)v); }
};
template<>
struct type_caster<bool>
{
    bool value = false;
    bool load(handle h, bool convert)
    {
        if (!h) {
            return false;
        }
        if (h.ptr() == Py_True || h.ptr() == Py_False) {
            value = h.ptr() == Py_True;
            return true;
        }
        const char* tn = Py_TYPE(h.ptr())->tp_name;
        if (convert || !strcmp(tn, "numpy.bool_") || !strcmp(tn, "numpy.bool")) {
            int r = -1;
            if (h.is_none()) {
                r = 0;
            } else if (auto* nb = Py_TYPE(h.ptr())->tp_as_number; nb && nb->nb_bool) {
                r = nb->nb_bool(h.ptr());
            }
            if (r == 0 || r == 1) {
                value = r == 1;
                return true;
            }
            PyErr_Clear();
        }
        return false;
    }
    bool& ref() { return value; }
    static handle cast(bool v, return_value_policy, handle) { return PyBool_FromLong(v); }
};
template<>
struct type_caster<std::string>
{
    std::string value;
    bool load(handle h, bool)
    {
        if (!h) {
            return false;
        }
        if (PyUnicode_Check(h.ptr())) {
            ssize_t n = 0;
            const char* c = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
            if (!c) {
                PyErr_Clear();
                return false;
            }
            value.assign(c, (size_t)n);
            return true;
        }
        if (PyBytes_Check(h.ptr())) {
            value.assign(PyBytes_AS_STRING(h.ptr()), (size_t)PyBytes_GET_SIZE(h.ptr()));
            return true;
        }
        if (PyByteArray_Check(h.ptr())) {
            value.assign(PyByteArray_AS_STRING(h.ptr()), (size_t)PyByteArray_GET_SIZE(h.ptr()));
            return true;
        }
        return false;
    }
    std::string& ref() { return value; }
    static handle cast(std::string_view v, return_value_policy, handle)
    {
        PyObject* p = PyUnicode_DecodeUTF8(v.data(), (ssize_t)v.size(), nullptr);
        if (!p) {
            throw error_already_set();
        }
        return p;
    }
};
template<>
struct type_caster<std::string_view> : type_caster<std::string>
{
    std::string_view view;
    bool load(handle h, bool c)
    {
        bool r = type_caster<std::string>::load(h, c);
        view = value;
        return r;
    }
    std::string_view& ref() { return view; }
};
// char: C strings and single characters
template<>
struct type_caster<char>
{
    type_caster<std::string> s;
    bool null = false;
    bool load(handle h, bool c)
    {
        if (h && h.is_none()) {
            null = true;
            return c;
        }
        return s.load(h, c);
    }
    operator const char*() { return null ? nullptr : s.value.c_str(); }
    char& ref()
    {
        if (null || s.value.size() != 1) {
            throw value_error("Expected a character, but multi-character string found");
        }
        return s.value[0];
    }
    static handle cast(const char* v, return_value_policy p, handle h)
    {
        return v ? type_caster<std::string>::cast(v, p, h) : handle(none().release());
    }
    static handle cast(char v, return_value_policy p, handle h) { return type_caster<std::string>::cast({ &v, 1 }, p, h); }
};
template<class T>
struct type_caster<T, std::enable_if_t<std::is_base_of_v<handle, T>>>
{
    T value = make();
    static T make()
    {
        if constexpr (std::is_default_constructible_v<T> && (std::is_same_v<T, object> || std::is_same_v<T, handle>)) {
            return T();
        } else if constexpr (std::is_same_v<T, handle>) {
            return T();
        } else {
            return T(handle(), object::stolen_t{});
        }
    }
    bool load(handle h, bool)
    {
        if (!h) {
            return false;
        }
        if constexpr (std::is_same_v<T, handle>) {
            value = h;
            return true;
        } else if constexpr (std::is_same_v<T, object>) {
            value = reinterpret_borrow<object>(h);
            return true;
        } else {
            if (!T::check_(h)) {
                return false;
            }
            value = reinterpret_borrow<T>(h);
            return true;
        }
    }
    T& ref() { return value; }
    static handle cast(const handle& h, return_value_policy, handle) { return h.inc_ref(); }
};
template<class P>
struct type_caster<accessor<P>>
{
    static handle cast(const accessor<P>& a, return_value_policy, handle) { return a.get().inc_ref(); }
};
template<>
struct type_caster<std::nullptr_t>
{
    static handle cast(std::nullptr_t, return_value_policy, handle) { return none().release(); }
};
template<class T>
struct type_caster<std::shared_ptr<T>>
{
    std::shared_ptr<T> value;
    bool load(handle h, bool convert)
    {
        type_caster<T> c;
        if (!c.load(h, convert)) {
            return false;
        }
        if (!c.value) {
            return true;
        }
        auto* i = (instance*)h.ptr();
        if (!i->holder || !*i->holder) {
            throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
        }
        value = std::shared_ptr<T>(*i->holder, c.value);
        return true;
    }
    std::shared_ptr<T>& ref() { return value; }
    static handle cast(std::shared_ptr<T> v, return_value_policy, handle)
    {
        return v ? handle(make_instance<T>(v.get(), v, {})) : handle(none().release());
    }
};
template<class T, class D>
struct type_caster<std::unique_ptr<T, D>>
{
    static handle cast(std::unique_ptr<T, D> v, return_value_policy, handle)
    {
        if (!v) {
            return none().release();
        }
        std::shared_ptr<T> s(std::move(v));
        return make_instance<T>(s.get(), s, {});
    }
};
template<class T>
struct type_caster<std::reference_wrapper<T>>
{
    static handle cast(std::reference_wrapper<T> v, return_value_policy, handle parent)
    {
        return type_caster<bare<T>>::cast(v.get(), return_value_policy::reference, parent);
    }
};
template<class A, class B>
struct type_caster<std::pair<A, B>>
{
    std::optional<std::pair<A, B>> value;
    bool load(handle h, bool convert)
    {
        if (!h || !PySequence_Check(h.ptr()) || PyUnicode_Check(h.ptr()) || PySequence_Size(h.ptr()) != 2) {
            PyErr_Clear();
            return false;
        }
        object a = checked_steal<object>(PySequence_GetItem(h.ptr(), 0)), b = checked_steal<object>(PySequence_GetItem(h.ptr(), 1));
        type_caster<A> ca;
        type_caster<B> cb;
        if (!ca.load(a, convert) || !cb.load(b, convert)) {
            return false;
        }
        value.emplace(ca.ref(), cb.ref());
        return true;
    }
    std::pair<A, B>& ref() { return *value; }
    static handle cast(const std::pair<A, B>& v, return_value_policy p, handle h)
    {
        tuple t(2);
        PyTuple_SET_ITEM(t.ptr(), 0, type_caster<bare<A>>::cast(v.first, p, h).ptr());
        PyTuple_SET_ITEM(t.ptr(), 1, type_caster<bare<B>>::cast(v.second, p, h).ptr());
        return t.release();
    }
};
template<class... Ts>
struct type_caster<std::tuple<Ts...>>
{
    static handle cast(const std::tuple<Ts...>& v, return_value_policy p, handle h)
    {
        tuple t(sizeof...(Ts));
        ssize_t n = 0;
        std::apply([&](auto&... x) { ((PyTuple_SET_ITEM(t.ptr(), n++, type_caster<bare<decltype(x)>>::cast(x, p, h).ptr())), ...); }, v);
        return t.release();
    }
};

template<class T>
using caster_of = type_caster<intrinsic<T>>;

// hands a loaded value on as the parameter type A
template<class A, class C>
A
pass(C& c)
{
    using B = bare<A>;
    if constexpr (std::is_pointer_v<B>) {
        if constexpr (std::is_same_v<intrinsic<A>, char>) {
            return (const char*)c;
        } else {
            return c.value;
        }
    } else if constexpr (std::is_rvalue_reference_v<A>) {
        return std::move(c.ref());
    } else {
        return c.ref();
    }
}
// Python object from a result of type R
template<class R>
handle
to_python(R&& v, return_value_policy p, handle parent)
{
    using B = bare<R>;
    if constexpr (std::is_pointer_v<B> && !std::is_same_v<intrinsic<R>, char>) {
        using I = intrinsic<R>;
        if constexpr (requires { typename type_caster<I>::is_class; }) {
            return type_caster<I>::cast_ptr(const_cast<I*>(v), p, parent);
        } else {
            return v ? type_caster<I>::cast(*v, p, parent) : handle(none().release());
        }
    } else if constexpr (std::is_array_v<B>) {
        return type_caster<char>::cast((const char*)v, p, parent);
    } else {
        return type_caster<std::conditional_t<std::is_same_v<intrinsic<R>, char>, char, B>>::cast(std::forward<R>(v), p, parent);
    }
}
} // namespace detail

template<class T>
bool
isinstance(handle h)
{
    if constexpr (std::is_base_of_v<handle, T>) {
        if constexpr (std::is_same_v<T, object> || std::is_same_v<T, handle>) {
            return (bool)h;
        } else {
            return T::check_(h);
        }
    } else {
        auto* ti = detail::find_type(typeid(T));
        return ti && h && PyObject_TypeCheck(h.ptr(), ti->type);
    }
}
inline bool
isinstance(handle h, handle t)
{
    int r = PyObject_IsInstance(h.ptr(), t.ptr());
    if (r < 0) {
        throw error_already_set();
    }
    return r == 1;
}

template<class T>
    requires(!std::is_base_of_v<detail::pyobject_tag, detail::bare<T>> || std::is_base_of_v<handle, detail::bare<T>>)
object
cast(T&& v, return_value_policy p = return_value_policy::automatic_reference, handle parent = {})
{
    using namespace detail;
    // lvalues are copied unless the caller says otherwise
    if (p == return_value_policy::automatic_reference || p == return_value_policy::automatic) {
        if constexpr (!std::is_pointer_v<bare<T>>) {
            p = std::is_lvalue_reference_v<T> ? return_value_policy::copy : return_value_policy::move;
        }
    }
    return checked_steal<object>(to_python(std::forward<T>(v), p, parent).ptr());
}
template<class T>
T
cast(const handle& h)
{
    using namespace detail;
    if constexpr (std::is_base_of_v<handle, bare<T>>) {
        if constexpr (std::is_same_v<bare<T>, handle>) {
            return h;
        } else {
            return T(reinterpret_borrow<object>(h));
        }
    } else if constexpr (std::is_void_v<T>) {
        return;
    } else {
        caster_of<T> c;
        if (!c.load(h, true)) {
            throw cast_error("Unable to cast Python instance of type " + (std::string)str(type::handle_of(h)) + " to C++ type '" +
                             type_name(typeid(intrinsic<T>)) + "'");
        }
        return pass<T>(c);
    }
}
template<class T>
T
move(object&& o)
{
    return cast<T>(o);
}
template<class T>
T
handle::cast() const
{
    return pybind11::cast<T>(*this);
}
template<class T>
T
object::cast() const&
{
    return pybind11::cast<T>(*this);
}
template<class T>
T
object::cast() &&
{
    return pybind11::cast<T>(*this);
}

namespace detail {
template<class T>
object
object_or_cast(T&& v)
{
    if constexpr (std::is_base_of_v<handle, bare<T>>) {
        return reinterpret_borrow<object>(v);
    } else if constexpr (std::is_base_of_v<pyobject_tag, bare<T>>) {
        return v.get();
    } else {
        return pybind11::cast(std::forward<T>(v));
    }
}
template<class P>
template<class T>
void
accessor<P>::operator=(T&& v) &&
{
    P::set(o_, k_, object_or_cast(std::forward<T>(v)));
}
template<class P>
template<class T>
void
accessor<P>::operator=(T&& v) &
{
    P::set(o_, k_, object_or_cast(std::forward<T>(v)));
    cache_ = object();
}
template<class P>
void
accessor<P>::operator=(const accessor& a) &&
{
    P::set(o_, k_, a.get());
}
template<class D>
template<class T>
bool
object_api<D>::contains(T&& item) const
{
    int r = PySequence_Contains(p(), object_or_cast(std::forward<T>(item)).ptr());
    if (r < 0) {
        throw error_already_set();
    }
    return r == 1;
}
template<class D>
template<class... A>
object
object_api<D>::operator()(A&&... a) const
{
    std::vector<object> pos;
    dict kw;
    auto add = [&](auto&& x) {
        using B = bare<decltype(x)>;
        if constexpr (std::is_same_v<B, arg_v>) {
            kw[x.name] = x.value;
        } else {
            pos.push_back(object_or_cast(std::forward<decltype(x)>(x)));
        }
    };
    (add(std::forward<A>(a)), ...);
    tuple t(pos.size());
    for (size_t i = 0; i < pos.size(); ++i) {
        PyTuple_SET_ITEM(t.ptr(), (ssize_t)i, pos[i].release().ptr());
    }
    return checked_steal<object>(PyObject_Call(p(), t.ptr(), kw.empty() ? nullptr : kw.ptr()));
}
} // namespace detail

template<class T>
arg_v
arg::operator=(T&& v) const
{
    return arg_v(*this, detail::object_or_cast(std::forward<T>(v)));
}
template<class T>
void
list::append(T&& v)
{
    if (PyList_Append(m_ptr, detail::object_or_cast(std::forward<T>(v)).ptr())) {
        throw error_already_set();
    }
}
template<class T>
bool
dict::contains(T&& key) const
{
    int r = PyDict_Contains(m_ptr, detail::object_or_cast(std::forward<T>(key)).ptr());
    if (r < 0) {
        throw error_already_set();
    }
    return r == 1;
}
template<class... A>
str
str::format(A&&... a) const
{
    return str(attr("format")(std::forward<A>(a)...));
}
template<class... A>
tuple
make_tuple(A&&... a)
{
    tuple t(sizeof...(A));
    ssize_t n = 0;
    ((PyTuple_SET_ITEM(t.ptr(), n++, detail::object_or_cast(std::forward<A>(a)).release().ptr())), ...);
    return t;
}
template<class... A>
void
print(A&&... a)
{
    object b = checked_steal<object>(PyImport_ImportModule("builtins"));
    b.attr("print")(std::forward<A>(a)...);
}

// --------------------------------------------------------------------------------------------------------- functions
namespace detail {
struct function_record
{
    std::string name, doc;
    std::vector<std::string> arg_names; // "" if unnamed
    std::vector<object> defaults;       // null if none
    std::vector<bool> none_ok, no_conv;
    size_t n_args = 0; // without self's name handling: all C++ parameters other than args/kwargs
    bool has_args = false, has_kwargs = false, is_method = false;
    size_t kw_only_from = (size_t)-1;
    return_value_policy policy = return_value_policy::automatic;
    std::vector<std::pair<size_t, size_t>> keep;
    std::string signature;
    // the loaded arguments, or nothing (try the next overload)
    std::function<PyObject*(const function_record&, std::vector<object>&, handle args, handle kwargs, handle parent)> impl;
};
inline PyObject*
try_next()
{
    return (PyObject*)1;
}
struct overloads
{
    std::vector<std::unique_ptr<function_record>> recs;
    std::string name;
    std::string doc;
    PyMethodDef def{};
};
inline void
translate_exception()
{
    try {
        throw;
    } catch (error_already_set& e) {
        e.restore();
    } catch (const builtin_exception& e) {
        e.set_error();
    } catch (const std::bad_alloc& e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error& e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
}
inline PyObject*
dispatch(PyObject* cap, PyObject* args_in, PyObject* kwargs_in)
{
    auto* ov = (overloads*)PyCapsule_GetPointer(cap, "shim.overloads");
    try {
        for (auto& rp : ov->recs) {
            auto& r = *rp;
            size_t given = (size_t)PyTuple_GET_SIZE(args_in);
            size_t npos = std::min(given, std::min(r.n_args, r.kw_only_from));
            if (given > npos && !r.has_args) {
                continue;
            }
            std::vector<object> a;
            for (size_t i = 0; i < npos; ++i) {
                a.push_back(reinterpret_borrow<object>(PyTuple_GET_ITEM(args_in, (ssize_t)i)));
            }
            dict kw = kwargs_in ? checked_steal<dict>(PyDict_Copy(kwargs_in)) : dict();
            bool ok = true;
            for (size_t i = npos; i < r.n_args && ok; ++i) {
                object v;
                if (!r.arg_names[i].empty()) {
                    if (PyObject* x = PyDict_GetItemString(kw.ptr(), r.arg_names[i].c_str())) {
                        v = reinterpret_borrow<object>(x);
                        PyDict_DelItemString(kw.ptr(), r.arg_names[i].c_str());
                    }
                }
                if (!v) {
                    v = r.defaults[i];
                }
                ok = (bool)v;
                a.push_back(std::move(v));
            }
            if (!ok || (!kw.empty() && !r.has_kwargs)) {
                continue;
            }
            for (size_t i = 0; i < a.size() && ok; ++i) {
                ok = !a[i].is_none() || r.none_ok[i];
            }
            if (!ok) {
                continue;
            }
            tuple rest = checked_steal<tuple>(PyTuple_GetSlice(args_in, (ssize_t)npos, (ssize_t)given));
            PyObject* res = r.impl(r, a, rest, kw, r.is_method && !a.empty() ? handle(a[0]) : handle());
            if (res == try_next()) {
                continue;
            }
            for (auto& [nurse, patient] : r.keep) {
                auto get = [&](size_t k) { return k == 0 ? handle(res) : k <= a.size() ? handle(a[k - 1]) : handle(); };
                handle n = get(nurse), p = get(patient);
                if (res && n && p && !n.is_none() && !p.is_none() && cpp_type_of(Py_TYPE(n.ptr()))) {
                    auto* i = (instance*)n.ptr();
                    // chain behind whatever the nurse keeps already
                    PyObject* both = PyTuple_Pack(2, i->parent ? i->parent : Py_None, p.ptr());
                    Py_XDECREF(i->parent);
                    i->parent = both;
                }
            }
            return res;
        }
    } catch (...) {
        translate_exception();
        return nullptr;
    }
    std::string m = ov->name + "(): incompatible function arguments. The following argument types are supported:\n";
    for (auto& r : ov->recs) {
        m += "    " + ov->name + r->signature + "\n";
    }
    PyErr_SetString(PyExc_TypeError, m.c_str());
    return nullptr;
}

template<class A>
constexpr bool is_args = std::is_same_v<bare<A>, args>;
template<class A>
constexpr bool is_kwargs = std::is_same_v<bare<A>, kwargs>;

template<class... Ts>
struct guards
{
    template<class F>
    static decltype(auto) run(F&& f)
    {
        [[maybe_unused]] std::tuple<std::unique_ptr<Ts>...> g(std::make_unique<Ts>()...);
        return f();
    }
};
template<>
struct guards<>
{
    template<class F>
    static decltype(auto) run(F&& f)
    {
        return f();
    }
};
template<class... E>
struct find_guard
{
    using type = guards<>;
};
template<class... G, class... E>
struct find_guard<call_guard<G...>, E...>
{
    using type = guards<G...>;
};
template<class X, class... E>
struct find_guard<X, E...> : find_guard<E...>
{
};

inline void
apply_extra(function_record& r, size_t& named, const char* d)
{
    (void)named;
    r.doc = d;
}
inline void
apply_extra(function_record& r, size_t&, const doc& d)
{
    r.doc = d.value;
}
inline void
apply_extra(function_record& r, size_t&, const name& d)
{
    r.name = d.value;
}
inline void
apply_extra(function_record& r, size_t&, const is_method&)
{
    r.is_method = true;
}
inline void
apply_extra(function_record& r, size_t&, return_value_policy p)
{
    r.policy = p;
}
inline void
apply_extra(function_record& r, size_t& named, const arg& a)
{
    if (named < r.n_args) {
        r.arg_names[named] = a.name ? a.name : "";
        r.none_ok[named] = a.none_ok;
        r.no_conv[named] = a.no_conv;
    }
    ++named;
}
inline void
apply_extra(function_record& r, size_t& named, const arg_v& a)
{
    if (named < r.n_args) {
        r.defaults[named] = a.value;
    }
    apply_extra(r, named, static_cast<const arg&>(a));
}
inline void
apply_extra(function_record& r, size_t& named, const kw_only&)
{
    r.kw_only_from = named;
}
template<size_t N, size_t P>
void
apply_extra(function_record& r, size_t&, const keep_alive<N, P>&)
{
    r.keep.push_back({ N, P });
}
template<class T>
    requires(!std::is_convertible_v<T, const char*> && !std::is_base_of_v<arg, T>)
void
apply_extra(function_record&, size_t&, const T&)
{
}

template<class F, class R, class... A, class... E>
std::unique_ptr<function_record>
make_record(F f, R (*)(A...), bool method, const E&... extra)
{
    auto r = std::make_unique<function_record>();
    r->is_method = method;
    r->n_args = ((is_args<A> || is_kwargs<A> ? 0 : 1) + ... + 0);
    r->has_args = (is_args<A> || ...);
    r->has_kwargs = (is_kwargs<A> || ...);
    r->arg_names.resize(r->n_args);
    r->defaults.resize(r->n_args);
    r->none_ok.assign(r->n_args, true);
    r->no_conv.assign(r->n_args, false);
    size_t named = method ? 1 : 0;
    (apply_extra(*r, named, extra), ...);
    std::string sig = "(";
    [[maybe_unused]] size_t k = 0;
    ((sig += (k++ ? ", " : "") + std::string("arg: ") + type_name(typeid(intrinsic<A>))), ...);
    r->signature = sig + ")";
    using G = typename find_guard<E...>::type;
    r->impl = [f = std::move(f)](const function_record& rec, std::vector<object>& a, handle rest, handle kw, handle parent) mutable -> PyObject* {
        std::tuple<caster_of<A>...> casters;
        size_t i = 0;
        bool ok = std::apply(
          [&](auto&... c) {
              auto one = [&](auto& cc, auto* tag) {
                  using P = std::remove_pointer_t<decltype(tag)>;
                  if constexpr (is_args<P>) {
                      return cc.load(rest, true);
                  } else if constexpr (is_kwargs<P>) {
                      return cc.load(kw, true);
                  } else {
                      size_t n = i++;
                      return cc.load(a[n], !rec.no_conv[n]);
                  }
              };
              return (one(c, (bare<A>*)nullptr) && ...);
          },
          casters);
        if (!ok) {
            return try_next();
        }
        try {
            auto call = [&]() -> R { return std::apply([&](auto&... c) -> R { return f(pass<A>(c)...); }, casters); };
            if constexpr (std::is_void_v<R>) {
                G::run(call);
                return none().release().ptr();
            } else {
                auto p = rec.policy;
                if constexpr (std::is_lvalue_reference_v<R>) {
                    if (p == return_value_policy::automatic || p == return_value_policy::automatic_reference) {
                        p = return_value_policy::copy;
                    }
                } else if constexpr (!std::is_pointer_v<R>) {
                    p = return_value_policy::move;
                }
                R res = G::run(call);
                return to_python(std::forward<R>(res), p, parent).ptr();
            }
        } catch (reference_cast_error&) {
            return try_next();
        }
    };
    return r;
}
template<class L>
struct lambda_sig;
template<class C, class R, class... A>
struct lambda_sig<R (C::*)(A...)>
{
    using type = R (*)(A...);
};
template<class C, class R, class... A>
struct lambda_sig<R (C::*)(A...) const>
{
    using type = R (*)(A...);
};
template<class C, class R, class... A>
struct lambda_sig<R (C::*)(A...) noexcept>
{
    using type = R (*)(A...);
};
template<class C, class R, class... A>
struct lambda_sig<R (C::*)(A...) const noexcept>
{
    using type = R (*)(A...);
};
template<class R, class... A, class... E>
auto
record_of(R (*f)(A...), bool m, const E&... e)
{
    return make_record(f, (R(*)(A...)) nullptr, m, e...);
}
template<class C, class R, class... A, class... E>
auto
record_of(R (C::*f)(A...), bool m, const E&... e)
{
    return make_record([f](C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, (R(*)(C*, A...)) nullptr, m, e...);
}
template<class C, class R, class... A, class... E>
auto
record_of(R (C::*f)(A...) const, bool m, const E&... e)
{
    return make_record([f](const C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, (R(*)(const C*, A...)) nullptr, m, e...);
}
template<class C, class R, class... A, class... E>
auto
record_of(R (C::*f)(A...) noexcept, bool m, const E&... e)
{
    return make_record([f](C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, (R(*)(C*, A...)) nullptr, m, e...);
}
template<class C, class R, class... A, class... E>
auto
record_of(R (C::*f)(A...) const noexcept, bool m, const E&... e)
{
    return make_record([f](const C* c, A... a) -> R { return (c->*f)(std::forward<A>(a)...); }, (R(*)(const C*, A...)) nullptr, m, e...);
}
template<class L, class... E>
    requires std::is_class_v<bare<L>>
auto
record_of(L&& l, bool m, const E&... e)
{
    using S = typename lambda_sig<decltype(&bare<L>::operator())>::type;
    return make_record(bare<L>(std::forward<L>(l)), (S) nullptr, m, e...);
}

// a new function, or another overload of the one already there
inline object
install(handle scope_, const std::string& name, std::unique_ptr<function_record> rec, bool method, bool chain = true)
{
    static auto* all = new std::unordered_map<PyObject*, std::unordered_map<std::string, PyObject*>>; // scope -> name -> capsule
    rec->name = name;
    auto& mine = (*all)[scope_.ptr()];
    auto it = mine.find(name);
    if (scope_ && chain && it != mine.end()) {
        ((overloads*)PyCapsule_GetPointer(it->second, "shim.overloads"))->recs.push_back(std::move(rec));
        return getattr(scope_, name.c_str());
    }
    auto* ov = new overloads;
    ov->name = name;
    ov->doc = rec->doc;
    ov->recs.push_back(std::move(rec));
    ov->def.ml_name = ov->name.c_str();
    ov->def.ml_meth = (PyCFunction)(void (*)(void))dispatch;
    ov->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    ov->def.ml_doc = ov->doc.c_str();
    object cap(PyCapsule_New(ov, "shim.overloads", nullptr), object::stolen_t{});
    object f(PyCFunction_NewEx(&ov->def, cap.ptr(), nullptr), object::stolen_t{});
    if (method) {
        f = object(PyInstanceMethod_New(f.ptr()), object::stolen_t{});
    }
    if (scope_) {
        mine[name] = cap.ptr();
        cap.inc_ref();
        setattr(scope_, name.c_str(), f);
    }
    return f;
}
} // namespace detail

class cpp_function : public function
{
  public:
    cpp_function() = default;
    cpp_function(std::nullptr_t) {}
    template<class F, class... E>
        requires(!std::is_base_of_v<handle, detail::bare<F>> && !std::is_same_v<detail::bare<F>, std::nullptr_t>)
    cpp_function(F&& f, const E&... e)
    {
        bool method = (std::is_same_v<E, is_method> || ...);
        *static_cast<object*>(this) = detail::install({}, "<lambda>", detail::record_of(std::forward<F>(f), method, e...), method, false);
    }
};

// ----------------------------------------------------------------------------------------------------------- modules
class module_ : public object
{
  public:
    PYBIND11_SHIM_OBJECT(module_, object, PyModule_Check)
    module_() = default;
    template<class F, class... E>
    module_& def(const char* n, F&& f, const E&... e)
    {
        detail::install(*this, n, detail::record_of(std::forward<F>(f), false, e...), false);
        return *this;
    }
    module_ def_submodule(const char* n, const char* d = nullptr)
    {
        std::string full = std::string(PyModule_GetName(m_ptr)) + "." + n;
        auto m = reinterpret_borrow<module_>(PyImport_AddModule(full.c_str()));
        if (d) {
            m.attr("__doc__") = str(d);
        }
        attr(n) = m;
        return m;
    }
    static module_ import(const char* n) { return checked_steal<module_>(PyImport_ImportModule(n)); }
    void add_object(const char* n, handle o, bool = false) { setattr(*this, n, o); }
};
using module = module_;

// ----------------------------------------------------------------------------------------------------------- classes
namespace detail {
template<class... A>
struct constructor
{
};
template<class F>
struct factory
{
    F f;
};
template<class T>
struct is_holder : std::false_type
{
};
template<class T>
struct is_holder<std::unique_ptr<T>> : std::true_type
{
};
template<class T, class D>
struct is_holder<std::unique_ptr<T, D>> : std::true_type
{
};
template<class T>
struct is_holder<std::shared_ptr<T>> : std::true_type
{
};
inline void
set_value(handle self, void* v, std::shared_ptr<void> h)
{
    auto* i = (instance*)self.ptr();
    delete i->holder;
    i->holder = new std::shared_ptr<void>(std::move(h));
    i->value = v;
}
} // namespace detail
template<class... A>
detail::constructor<A...>
init()
{
    return {};
}
template<class F>
detail::factory<detail::bare<F>>
init(F&& f)
{
    return { std::forward<F>(f) };
}

class generic_type : public object
{
  public:
    PYBIND11_SHIM_OBJECT(generic_type, object, PyType_Check)
    generic_type() = default;
};

template<class T, class... Opts>
class class_ : public generic_type
{
    template<class B>
    static constexpr bool is_base = !detail::is_holder<B>::value && std::is_base_of_v<B, T> && !std::is_same_v<B, T>;
    template<class B>
    static void add_base(detail::type_info& ti)
    {
        if constexpr (is_base<B>) {
            ti.bases.push_back({ std::type_index(typeid(B)), [](void* v) -> void* { return static_cast<B*>((T*)v); } });
        }
    }

  public:
    using type = T;
    template<class... E>
    class_(handle scope_, const char* name, const E&... extra)
    {
        bool dynamic = (std::is_same_v<E, dynamic_attr> || ...);
        const char* doc = nullptr;
        auto see = [&](const auto& e) {
            if constexpr (std::is_convertible_v<decltype(e), const char*>) {
                doc = e;
            }
        };
        (see(extra), ...);
        static std::vector<PyMemberDef> members;
        members = { { "__weaklistoffset__", T_PYSSIZET, offsetof(detail::instance, weak), READONLY, nullptr } };
        if (dynamic) {
            members.push_back({ "__dictoffset__", T_PYSSIZET, offsetof(detail::instance, attrs), READONLY, nullptr });
        }
        members.push_back({ nullptr, 0, 0, 0, nullptr });
        static PyGetSetDef getset[] = { { "__dict__", PyObject_GenericGetDict, PyObject_GenericSetDict, nullptr, nullptr },
                                        { nullptr, nullptr, nullptr, nullptr, nullptr } };
        std::string module_name = PyModule_Check(scope_.ptr()) ? PyModule_GetName(scope_.ptr()) : "";
        auto* full = new std::string(module_name + "." + name);
        std::vector<PyType_Slot> slots = { { Py_tp_new, (void*)detail::instance_new },
                                           { Py_tp_dealloc, (void*)detail::instance_dealloc },
                                           { Py_tp_init, (void*)detail::instance_init },
                                           { Py_tp_members, members.data() } };
        if (dynamic) {
            slots.push_back({ Py_tp_getset, getset });
        }
        if (doc) {
            slots.push_back({ Py_tp_doc, (void*)doc });
        }
        slots.push_back({ 0, nullptr });
        PyType_Spec spec{ full->c_str(), sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots.data() };
        auto& ti = detail::types()[typeid(T)];
        if (ti.type) {
            pybind11_fail("generic_type: type \"" + std::string(name) + "\" is already registered!");
        }
        (add_base<Opts>(ti), ...);
        PyObject* bases = nullptr;
        if (!ti.bases.empty()) {
            bases = PyTuple_New((ssize_t)ti.bases.size());
            for (size_t i = 0; i < ti.bases.size(); ++i) {
                PyObject* b = (PyObject*)detail::types()[ti.bases[i].first].type;
                Py_INCREF(b);
                PyTuple_SET_ITEM(bases, (ssize_t)i, b);
            }
        }
        m_ptr = PyType_FromSpecWithBases(&spec, bases);
        Py_XDECREF(bases);
        if (!m_ptr) {
            throw error_already_set();
        }
        ti.type = (PyTypeObject*)m_ptr;
        ti.name = name;
        inc_ref(); // the registry's
        setattr(scope_, name, *this);
    }
    template<class F, class... E>
        requires(!std::is_same_v<detail::bare<F>, void>)
    class_& def(const char* n, F&& f, const E&... e)
    {
        using B = detail::bare<F>;
        if constexpr (std::is_member_function_pointer_v<B>) {
            detail::install(*this, n, detail::record_of(method_adaptor(f), true, e...), true);
        } else {
            detail::install(*this, n, detail::record_of(std::forward<F>(f), true, e...), true);
        }
        std::string name = n;
        if (name == "__eq__" && !PyDict_GetItemString(((PyTypeObject*)m_ptr)->tp_dict, "__hash__")) {
            attr("__hash__") = none();
        }
        return *this;
    }
    template<class... A, class... E>
    class_& def(const detail::constructor<A...>&, const E&... e)
    {
        auto f = [](handle self, A... a) {
            std::shared_ptr<T> p;
            if constexpr (std::is_constructible_v<T, A...>) {
                p = std::make_shared<T>(std::forward<A>(a)...);
            } else {
                p = std::shared_ptr<T>(new T{ std::forward<A>(a)... });
            }
            detail::set_value(self, p.get(), p);
        };
        detail::install(*this, "__init__", detail::record_of(f, true, e...), true);
        return *this;
    }
    template<class F, class... E>
    class_& def(detail::factory<F> fac, const E&... e)
    {
        if constexpr (std::is_pointer_v<F>) {
            add_factory(fac.f, (F) nullptr, e...);
        } else {
            using S = typename detail::lambda_sig<decltype(&F::operator())>::type;
            add_factory(std::move(fac.f), (S) nullptr, e...);
        }
        return *this;
    }
    template<class G, class S, class... E>
    class_& def_property(const char* n, const G& g, const S& s, const E&... e)
    {
        add_property(n, fn(g, e...), fn_set(s, e...), e...);
        return *this;
    }
    template<class G, class... E>
    class_& def_property_readonly(const char* n, const G& g, const E&... e)
    {
        add_property(n, fn(g, e...), none(), e...);
        return *this;
    }
    template<class C, class D, class... E>
    class_& def_readwrite(const char* n, D C::*pm, const E&... e)
    {
        return def_property(
          n, [pm](const T& c) -> const D& { return c.*pm; }, [pm](T& c, const D& v) { c.*pm = v; }, e...);
    }
    template<class C, class D, class... E>
    class_& def_readonly(const char* n, const D C::*pm, const E&... e)
    {
        return def_property_readonly(n, [pm](const T& c) -> const D& { return c.*pm; }, e...);
    }
    template<class F, class... E>
    class_& def_static(const char* n, F&& f, const E&... e)
    {
        object fun = detail::install({}, n, detail::record_of(std::forward<F>(f), false, e...), false, false);
        attr(n) = checked_steal<object>(PyStaticMethod_New(fun.ptr()));
        return *this;
    }
    template<class G, class... E>
    class_& def_property_readonly_static(const char* n, const G& g, const E&...)
    {
        attr(n) = cpp_function(g)(*this); // evaluated once
        return *this;
    }

  private:
    template<class C, class R, class... A>
    static auto method_adaptor(R (C::*f)(A...))
    {
        return [f](T& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    }
    template<class C, class R, class... A>
    static auto method_adaptor(R (C::*f)(A...) const)
    {
        return [f](const T& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    }
    template<class C, class R, class... A>
    static auto method_adaptor(R (C::*f)(A...) noexcept)
    {
        return [f](T& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    }
    template<class C, class R, class... A>
    static auto method_adaptor(R (C::*f)(A...) const noexcept)
    {
        return [f](const T& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
    }
    template<class F, class R, class... A, class... E>
    void add_factory(F f, R (*)(A...), const E&... e)
    {
        auto w = [f = std::move(f)](handle self, A... a) mutable {
            if constexpr (std::is_pointer_v<R>) {
                std::shared_ptr<T> p(f(std::forward<A>(a)...));
                if (!p) {
                    throw type_error("pybind11::init(): factory function returned nullptr");
                }
                detail::set_value(self, p.get(), p);
            } else if constexpr (detail::is_holder<R>::value) {
                std::shared_ptr<T> p(f(std::forward<A>(a)...));
                if (!p) {
                    throw type_error("pybind11::init(): factory function returned nullptr");
                }
                detail::set_value(self, p.get(), p);
            } else {
                std::shared_ptr<T> p(new T(f(std::forward<A>(a)...)));
                detail::set_value(self, p.get(), p);
            }
        };
        detail::install(*this, "__init__", detail::make_record(std::move(w), (void (*)(handle, A...)) nullptr, true, e...), true);
    }
    template<class G, class... E>
    static object fn(const G& g, const E&... e)
    {
        if constexpr (std::is_base_of_v<handle, G>) {
            return g;
        } else {
            auto rec = [&] {
                if constexpr (std::is_member_function_pointer_v<G>) {
                    return detail::record_of(method_adaptor(g), true, return_value_policy::reference_internal, e...);
                } else {
                    return detail::record_of(g, true, return_value_policy::reference_internal, e...);
                }
            }();
            return detail::install({}, "fget", std::move(rec), true, false);
        }
    }
    template<class S, class... E>
    static object fn_set(const S& s, const E&... e)
    {
        if constexpr (std::is_same_v<S, std::nullptr_t>) {
            return none();
        } else if constexpr (std::is_base_of_v<handle, S>) {
            return s;
        } else if constexpr (std::is_member_function_pointer_v<S>) {
            return detail::install({}, "fset", detail::record_of(method_adaptor(s), true, e...), true, false);
        } else {
            return detail::install({}, "fset", detail::record_of(s, true, e...), true, false);
        }
    }
    template<class... E>
    void add_property(const char* n, object g, object s, const E&... e)
    {
        const char* doc = "";
        auto see = [&](const auto& x) {
            if constexpr (std::is_convertible_v<decltype(x), const char*>) {
                doc = x;
            }
        };
        (see(e), ...);
        attr(n) = handle((PyObject*)&PyProperty_Type)(g, s, none(), str(doc));
    }
};

template<class E>
class enum_ : public class_<E>
{
    using U = std::underlying_type_t<E>;
    using Int = std::conditional_t<std::is_signed_v<U>, long long, unsigned long long>;
    object members_;
    std::string name_;
    std::vector<std::string> names_;

    static std::string member(handle m, E v)
    {
        for (auto [k, x] : reinterpret_borrow<dict>(m)) {
            if (x.template cast<E>() == v) {
                return (std::string)str(k);
            }
        }
        return "???";
    }

  public:
    template<class... X>
    enum_(handle scope, const char* name, const X&... extra)
      : class_<E>(scope, name, extra...)
      , members_(dict())
      , name_(name)
    {
        object m = members_;
        std::string nm = name;
        this->def(init([](Int i) { return (E)(U)i; }), arg("value"));
        this->def("__int__", [](const E& e) { return (Int)(U)e; });
        this->def("__index__", [](const E& e) { return (Int)(U)e; });
        this->def("__hash__", [](const E& e) { return (Int)(U)e; });
        this->def("__eq__", [](const E& a, object b) { return isinstance<E>(b) && a == b.cast<E>(); });
        this->def("__ne__", [](const E& a, object b) { return !(isinstance<E>(b) && a == b.cast<E>()); });
        this->def("__getstate__", [](const E& e) { return (Int)(U)e; });
        this->def("__repr__", [m, nm](const E& e) { return "<" + nm + "." + member(m, e) + ": " + std::to_string((Int)(U)e) + ">"; });
        this->def("__str__", [m, nm](const E& e) { return nm + "." + member(m, e); });
        this->def_property_readonly("name", [m](const E& e) { return member(m, e); });
        this->def_property_readonly("value", [](const E& e) { return (Int)(U)e; });
        this->attr("__members__") = m;
    }
    enum_& value(const char* n, E v, const char* = nullptr)
    {
        if (members_.contains(n)) {
            throw value_error(name_ + ": element \"" + n + "\" already exists!");
        }
        object o = pybind11::cast(v, return_value_policy::copy);
        members_[n] = o;
        this->attr(n) = o;
        names_.push_back(n);
        scope_values_.push_back(o);
        return *this;
    }
    enum_& export_values()
    {
        object mod = object(PyImport_AddModule(((std::string)str(this->attr("__module__"))).c_str()), object::borrowed_t{});
        for (size_t i = 0; i < names_.size(); ++i) {
            mod.attr(names_[i].c_str()) = scope_values_[i];
        }
        return *this;
    }

  private:
    std::vector<object> scope_values_;
};

template<class T>
type
type::of()
{
    auto* ti = detail::find_type(typeid(T));
    if (!ti) {
        throw cast_error("unregistered type");
    }
    return type(handle((PyObject*)ti->type), borrowed_t{});
}

template<class From, class To>
void
implicitly_convertible()
{
    auto* ti = detail::find_type(typeid(To));
    if (!ti) {
        pybind11_fail("implicitly_convertible: Unable to find type");
    }
    PyTypeObject* t = ti->type;
    ti->conversions.push_back([t](PyObject* o) -> PyObject* {
        static thread_local bool busy = false;
        if (busy) {
            return nullptr;
        }
        detail::type_caster<From> c;
        if (!c.load(o, false)) {
            return nullptr;
        }
        busy = true;
        PyObject* r = PyObject_CallFunctionObjArgs((PyObject*)t, o, nullptr);
        busy = false;
        return r;
    });
}

template<class Exc>
object&
register_exception(handle scope, const char* name, handle base = PyExc_Exception)
{
    std::string full = std::string(PyModule_GetName(scope.ptr())) + "." + name;
    static object e;
    e = object(PyErr_NewException(full.c_str(), base.ptr(), nullptr), object::stolen_t{});
    setattr(scope, name, e);
    return e;
}
} // namespace pybind11

namespace pybind11::detail {
inline PyObject*
init_module(const char* name, void (*body)(module_&))
{
    static auto* defs = new std::map<std::string, PyModuleDef>;
    auto& d = (*defs)[name];
    d = PyModuleDef{ PyModuleDef_HEAD_INIT, name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr };
    PyObject* m = PyModule_Create(&d);
    if (!m) {
        return nullptr;
    }
    auto mod = reinterpret_borrow<module_>(m);
    try {
        body(mod);
        return m;
    } catch (error_already_set& e) {
        e.restore();
    } catch (std::exception& e) {
        PyErr_SetString(PyExc_ImportError, e.what());
    }
    Py_DECREF(m);
    return nullptr;
}
} // namespace pybind11::detail

#define PYBIND11_MODULE(name, variable, ...)                                                                                      \
    static void pybind11_init_##name(::pybind11::module_&);                                                                       \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name()                                                   \
    {                                                                                                                             \
        return ::pybind11::detail::init_module(#name, &pybind11_init_##name);                                                     \
    }                                                                                                                             \
    static void pybind11_init_##name([[maybe_unused]] ::pybind11::module_& variable)
#define PYBIND11_MAKE_OPAQUE(...)                                                                                                 \
    namespace pybind11::detail {                                                                                                  \
    template<>                                                                                                                    \
    struct type_caster<__VA_ARGS__> : type_caster_base<__VA_ARGS__>                                                               \
    {                                                                                                                             \
    };                                                                                                                            \
    }
#define PYBIND11_OVERRIDE_NAME(...)
