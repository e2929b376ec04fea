// Vectors as Python classes for the stand-in.
#pragma once
#include "pybind11.h"

#include <algorithm>

namespace pybind11 {
template<class V, class Holder = std::unique_ptr<V>, class... E>
class_<V>
bind_vector(handle scope, const std::string& name, E&&... e)
{
    using T = typename V::value_type;
    auto* keep = new std::string(name);
    class_<V> c(scope, keep->c_str(), e...);
    auto wrap = [](ssize_t i, size_t n) {
        if (i < 0) {
            i += (ssize_t)n;
        }
        if (i < 0 || (size_t)i >= n) {
            throw index_error();
        }
        return (size_t)i;
    };
    auto collect = [](handle it) {
        V v;
        for (handle h : it) {
            v.push_back(h.cast<T>());
        }
        return v;
    };
    c.def(init<>());
    c.def(init<const V&>());
    c.def(init([collect](const iterable& it) { return std::make_unique<V>(collect(it)); }));
    c.def("append", [](V& v, const T& x) { v.push_back(x); }, arg("x"));
    c.def("clear", [](V& v) { v.clear(); });
    c.def("extend", [](V& v, const V& o) {
        V copy = o;
        v.insert(v.end(), copy.begin(), copy.end());
    }, arg("L"));
    c.def("extend", [collect](V& v, const iterable& it) {
        V o = collect(it); // all or nothing
        v.insert(v.end(), o.begin(), o.end());
    }, arg("L"));
    c.def("insert", [](V& v, ssize_t i, const T& x) {
        if (i < 0) {
            i += (ssize_t)v.size();
        }
        if (i < 0 || (size_t)i > v.size()) {
            throw index_error();
        }
        v.insert(v.begin() + i, x);
    }, arg("i"), arg("x"));
    c.def("pop", [](V& v) {
        if (v.empty()) {
            throw index_error();
        }
        T t = std::move(v.back());
        v.pop_back();
        return t;
    });
    c.def("pop", [wrap](V& v, ssize_t i) {
        size_t k = wrap(i, v.size());
        T t = std::move(v[k]);
        v.erase(v.begin() + (ssize_t)k);
        return t;
    }, arg("i"));
    c.def("__len__", [](const V& v) { return v.size(); });
    c.def("__bool__", [](const V& v) { return !v.empty(); });
    c.def("__getitem__", [wrap](V& v, ssize_t i) -> T& { return v[wrap(i, v.size())]; }, return_value_policy::reference_internal);
    c.def("__getitem__", [](const V& v, const slice& s) {
        size_t a = 0, b = 0, st = 0, n = 0;
        if (!s.compute(v.size(), &a, &b, &st, &n)) {
            throw error_already_set();
        }
        V o;
        for (size_t i = 0; i < n; ++i, a += st) {
            o.push_back(v[a]);
        }
        return o;
    }, arg("s"));
    c.def("__setitem__", [wrap](V& v, ssize_t i, const T& x) { v[wrap(i, v.size())] = x; });
    c.def("__setitem__", [](V& v, const slice& s, const V& o) {
        size_t a = 0, b = 0, st = 0, n = 0;
        if (!s.compute(v.size(), &a, &b, &st, &n)) {
            throw error_already_set();
        }
        if (n != o.size()) {
            throw std::runtime_error("Left and right hand size of slice assignment have different sizes!");
        }
        V copy = o;
        for (size_t i = 0; i < n; ++i, a += st) {
            v[a] = copy[i];
        }
    });
    c.def("__delitem__", [wrap](V& v, ssize_t i) { v.erase(v.begin() + (ssize_t)wrap(i, v.size())); });
    c.def("__iter__", [](V& v) {
        list l;
        for (auto& x : v) {
            l.append(pybind11::cast(x, return_value_policy::copy));
        }
        return iter(l);
    });
    return c;
}
} // namespace pybind11
