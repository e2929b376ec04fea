// Standard containers for the stand-in.
#pragma once
#include "pybind11.h"

#include <array>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <unordered_map>
#include <vector>

namespace pybind11::detail {
template<class L, class T>
struct list_caster
{
    L value;
    bool load(handle h, bool convert)
    {
        if (!h || !PySequence_Check(h.ptr()) || PyUnicode_Check(h.ptr()) || PyBytes_Check(h.ptr())) {
            return false;
        }
        object seq(PySequence_Fast(h.ptr(), ""), object::stolen_t{});
        if (!seq) {
            PyErr_Clear();
            return false;
        }
        value.clear();
        for (ssize_t i = 0; i < PySequence_Fast_GET_SIZE(seq.ptr()); ++i) {
            type_caster<T> c;
            if (!c.load(PySequence_Fast_GET_ITEM(seq.ptr(), i), convert)) {
                return false;
            }
            value.push_back(c.ref());
        }
        return true;
    }
    L& ref() { return value; }
    template<class V>
    static handle cast(V&& v, return_value_policy p, handle parent)
    {
        list l(v.size());
        ssize_t i = 0;
        if (p != return_value_policy::reference_internal && p != return_value_policy::reference) {
            p = return_value_policy::copy;
        }
        for (auto&& x : v) {
            PyList_SET_ITEM(l.ptr(), i++, to_python(x, p, parent).ptr());
        }
        return l.release();
    }
};
template<class T, class A>
struct type_caster<std::vector<T, A>> : list_caster<std::vector<T, A>, T>
{
};
template<class T, class A>
struct type_caster<std::list<T, A>> : list_caster<std::list<T, A>, T>
{
};
template<class T, size_t N>
struct type_caster<std::array<T, N>>
{
    std::array<T, N> value;
    bool load(handle h, bool convert)
    {
        list_caster<std::vector<T>, T> l;
        if (!l.load(h, convert) || l.value.size() != N) {
            return false;
        }
        std::copy(l.value.begin(), l.value.end(), value.begin());
        return true;
    }
    std::array<T, N>& ref() { return value; }
    static handle cast(const std::array<T, N>& v, return_value_policy p, handle h) { return list_caster<std::vector<T>, T>::cast(v, p, h); }
};
template<class M>
struct map_caster
{
    M value;
    bool load(handle h, bool convert)
    {
        if (!h || !PyDict_Check(h.ptr())) {
            return false;
        }
        value.clear();
        for (auto [k, v] : reinterpret_borrow<dict>(h)) {
            type_caster<typename M::key_type> ck;
            type_caster<typename M::mapped_type> cv;
            if (!ck.load(k, convert) || !cv.load(v, convert)) {
                return false;
            }
            value.emplace(ck.ref(), cv.ref());
        }
        return true;
    }
    M& ref() { return value; }
    static handle cast(const M& m, return_value_policy p, handle parent)
    {
        dict d;
        for (auto& [k, v] : m) {
            object ko(to_python(k, return_value_policy::copy, parent), object::stolen_t{}), vo(to_python(v, return_value_policy::copy, parent), object::stolen_t{});
            PyDict_SetItem(d.ptr(), ko.ptr(), vo.ptr());
        }
        (void)p;
        return d.release();
    }
};
template<class K, class V, class... R>
struct type_caster<std::map<K, V, R...>> : map_caster<std::map<K, V, R...>>
{
};
template<class K, class V, class... R>
struct type_caster<std::unordered_map<K, V, R...>> : map_caster<std::unordered_map<K, V, R...>>
{
};
template<class T>
struct type_caster<std::optional<T>>
{
    std::optional<T> value;
    bool load(handle h, bool convert)
    {
        if (!h) {
            return false;
        }
        if (h.is_none()) {
            value.reset();
            return true;
        }
        type_caster<T> c;
        if (!c.load(h, convert)) {
            return false;
        }
        value.emplace(c.ref());
        return true;
    }
    std::optional<T>& ref() { return value; }
    template<class O>
    static handle cast(O&& v, return_value_policy p, handle parent)
    {
        if (!v) {
            return none().release();
        }
        return to_python(*std::forward<O>(v), p, parent);
    }
};
template<>
struct type_caster<std::nullopt_t>
{
    static handle cast(std::nullopt_t, return_value_policy, handle) { return none().release(); }
};
} // namespace pybind11::detail
