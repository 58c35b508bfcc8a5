// Stand-in for the parts of pybind11 that python/bindings.cpp uses (pybind11 isn't installed):
// the same definitions make a CPython extension with pybind11's conversion, overload and ownership rules.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
using ssize_t = Py_ssize_t;
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct reference_cast_error : cast_error { reference_cast_error() : cast_error("") {} };
struct error_already_set : std::exception
{
    const char *what() const noexcept override { return "Python error"; }
};
#define PB_EXC(name, type)                                                                                             \
    struct name : std::runtime_error                                                                                   \
    {                                                                                                                  \
        name() : std::runtime_error("") {}                                                                             \
        using std::runtime_error::runtime_error;                                                                       \
    };
PB_EXC(index_error, IndexError)
PB_EXC(key_error, KeyError)
PB_EXC(value_error, ValueError)
PB_EXC(type_error, TypeError)
PB_EXC(stop_iteration, StopIteration)
#undef PB_EXC

template <class T> struct Caster;
template <class T> PyObject *cast_out(T &&v, return_value_policy p, PyObject *parent);

struct object;
struct handle
{
    PyObject *m_ptr = nullptr;
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    PyObject *ptr() const { return m_ptr; }
    bool is_none() const { return m_ptr == Py_None; }
    explicit operator bool() const { return m_ptr; }
    template <class T> T cast() const;
    object attr(const char *name) const;
};
struct object : handle
{
    object() = default;
    object(PyObject *p, bool steal) : handle(p)
    {
        if (!steal)
            Py_XINCREF(p);
    }
    object(const object &o) : handle(o.m_ptr) { Py_XINCREF(m_ptr); }
    object(object &&o) noexcept : handle(o.m_ptr) { o.m_ptr = nullptr; }
    object &operator=(object o)
    {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object() { Py_XDECREF(m_ptr); }
    PyObject *release()
    {
        auto *p = m_ptr;
        m_ptr = nullptr;
        return p;
    }
};
inline PyObject *check(PyObject *p)
{
    if (!p)
        throw error_already_set();
    return p;
}
inline object handle::attr(const char *name) const { return object(check(PyObject_GetAttrString(m_ptr, name)), true); }
inline object none() { return object(Py_None, false); }
#define PB_TYPE(name, checkfn)                                                                                         \
    using object::object;                                                                                              \
    static bool check_(PyObject *p) { return checkfn(p); }
struct tuple : object
{
    PB_TYPE(tuple, PyTuple_Check)
    size_t size() const { return PyTuple_GET_SIZE(m_ptr); }
    object operator[](size_t i) const { return object(check(PySequence_GetItem(m_ptr, (Py_ssize_t)i)), true); }
};
struct list : object
{
    PB_TYPE(list, PyList_Check)
    list() : object(check(PyList_New(0)), true) {}
    size_t size() const { return PyList_GET_SIZE(m_ptr); }
    object operator[](size_t i) const { return object(check(PySequence_GetItem(m_ptr, (Py_ssize_t)i)), true); }
    template <class T> void append(T &&v)
    {
        object o(cast_out(std::forward<T>(v), return_value_policy::automatic_reference, nullptr), true);
        PyList_Append(m_ptr, o.ptr());
    }
};
struct dict : object
{
    PB_TYPE(dict, PyDict_Check)
    dict() : object(check(PyDict_New()), true) {}
};
struct bytes : object
{
    PB_TYPE(bytes, PyBytes_Check)
    bytes(const std::string &s) : object(check(PyBytes_FromStringAndSize(s.data(), s.size())), true) {}
    bytes(const char *s, size_t n) : object(check(PyBytes_FromStringAndSize(s, n)), true) {}
    operator std::string() const { return std::string(PyBytes_AS_STRING(m_ptr), PyBytes_GET_SIZE(m_ptr)); }
};
struct str : object
{
    PB_TYPE(str, PyUnicode_Check)
    str(const std::string &s) : object(check(PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr)), true) {}
    str(const char *s) : str(std::string(s)) {}
};
struct slice : object
{
    PB_TYPE(slice, PySlice_Check)
    bool compute(size_t length, size_t *start, size_t *stop, size_t *step, size_t *slicelength) const
    {
        Py_ssize_t a, b, s;
        if (PySlice_Unpack(m_ptr, &a, &b, &s) < 0)
            return false;
        *slicelength = PySlice_AdjustIndices((Py_ssize_t)length, &a, &b, s);
        *start = (size_t)a, *stop = (size_t)b, *step = (size_t)s;
        return true;
    }
};
struct iterator : object
{
    PB_TYPE(iterator, PyIter_Check)
};
#undef PB_TYPE

// ---- registered types and their instances
struct TypeRec
{
    std::type_index id;
    PyTypeObject *type = nullptr;
    bool shared = false;
    std::shared_ptr<void> (*own)(void *) = nullptr;
    std::vector<object (*)(PyObject *, PyTypeObject *)> implicit;
    std::string name;
};
struct Inst
{
    PyObject_HEAD void *ptr;
    std::shared_ptr<void> *holder;
    std::vector<PyObject *> *patients;
    const TypeRec *rec;
    PyObject *weak;
};
struct Registry
{
    std::unordered_map<std::type_index, TypeRec *> types;
    std::unordered_map<PyTypeObject *, TypeRec *> by_py;
    std::unordered_multimap<const void *, Inst *> instances;
    static Registry &get()
    {
        static auto *r = new Registry;
        return *r;
    }
    static TypeRec *find(const std::type_info &t)
    {
        auto &m = get().types;
        auto it = m.find(std::type_index(t));
        return it == m.end() ? nullptr : it->second;
    }
};
inline void adopt(Inst *i, const TypeRec *rec, void *p, std::shared_ptr<void> *h)
{
    i->ptr = p, i->holder = h, i->rec = rec;
    Registry::get().instances.emplace(p, i);
}
inline void keep(PyObject *nurse, PyObject *patient);
inline PyObject *inst_new(PyTypeObject *t, PyObject *, PyObject *)
{
    auto *i = (Inst *)t->tp_alloc(t, 0);
    if (i)
        i->ptr = nullptr, i->holder = nullptr, i->patients = nullptr, i->rec = nullptr, i->weak = nullptr;
    return (PyObject *)i;
}
inline int inst_init(PyObject *self, PyObject *, PyObject *)
{
    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(self)->tp_name);
    return -1;
}
inline void inst_dealloc(PyObject *self)
{
    auto *i = (Inst *)self;
    auto *t = Py_TYPE(self);
    if (i->weak)
        PyObject_ClearWeakRefs(self);
    if (i->ptr)
    {
        auto r = Registry::get().instances.equal_range(i->ptr);
        for (auto it = r.first; it != r.second; ++it)
            if (it->second == i)
            {
                Registry::get().instances.erase(it);
                break;
            }
    }
    delete i->holder;
    if (i->patients)
    {
        auto *ps = i->patients;
        i->patients = nullptr;
        for (auto *p : *ps)
            Py_DECREF(p);
        delete ps;
    }
    t->tp_free(self);
    Py_DECREF(t);
}
// the registered type of an object, following Python subclasses
inline TypeRec *rec_of(PyTypeObject *t)
{
    auto &m = Registry::get().by_py;
    for (; t; t = t->tp_base)
    {
        auto it = m.find(t);
        if (it != m.end())
            return it->second;
    }
    return nullptr;
}
// ---- iterators
struct Iter
{
    PyObject_HEAD std::function<PyObject *()> *next;
    PyObject *patient;
};
inline PyTypeObject *iter_type()
{
    static PyTypeObject *t = [] {
        static PyType_Slot slots[] = {
            {Py_tp_dealloc, (void *)+[](PyObject *o) {
                 auto *t = Py_TYPE(o);
                 delete ((Iter *)o)->next;
                 Py_XDECREF(((Iter *)o)->patient);
                 t->tp_free(o);
                 Py_DECREF(t);
             }},
            {Py_tp_iter, (void *)PyObject_SelfIter},
            {Py_tp_iternext, (void *)+[](PyObject *o) -> PyObject * {
                 try
                 {
                     return (*((Iter *)o)->next)();
                 }
                 catch (const error_already_set &)
                 {
                 }
                 catch (const std::exception &e)
                 {
                     PyErr_SetString(PyExc_RuntimeError, e.what());
                 }
                 return nullptr;
             }},
            {0, nullptr}};
        static PyType_Spec spec = {"copclib._core.iterator", sizeof(Iter), 0, Py_TPFLAGS_DEFAULT, slots};
        return (PyTypeObject *)check(PyType_FromSpec(&spec));
    }();
    return t;
}
template <class It, class End> iterator make_iterator(It b, End e)
{
    auto *i = (Iter *)check(iter_type()->tp_alloc(iter_type(), 0));
    i->patient = nullptr;
    auto st = std::make_shared<std::pair<It, End>>(b, e);
    i->next = new std::function<PyObject *()>([st]() -> PyObject * {
        if (st->first == st->second)
            return nullptr;
        auto *o = cast_out(*st->first, return_value_policy::reference_internal, nullptr);
        ++st->first;
        return o;
    });
    return iterator((PyObject *)i, true);
}
inline void keep(PyObject *nurse, PyObject *patient)
{
    if (!nurse || !patient || nurse == Py_None || patient == Py_None)
        return;
    if (Py_TYPE(nurse) == iter_type())
    {
        Py_INCREF(patient);
        Py_XSETREF(((Iter *)nurse)->patient, patient);
    }
    else if (rec_of(Py_TYPE(nurse)))
    {
        auto *i = (Inst *)nurse;
        if (!i->patients)
            i->patients = new std::vector<PyObject *>;
        Py_INCREF(patient);
        i->patients->push_back(patient);
    }
}

// ---- conversions
struct ClassBase
{
    void *value = nullptr;
    Inst *inst = nullptr;
    object temp;
    bool load_as(TypeRec *rec, PyObject *src, bool convert)
    {
        if (!src || !rec)
            return false;
        if (PyObject_TypeCheck(src, rec->type))
        {
            inst = (Inst *)src;
            value = inst->ptr;
            return true;
        }
        if (convert)
        {
            for (auto c : rec->implicit)
            {
                temp = c(src, rec->type);
                if (temp && load_as(rec, temp.ptr(), false))
                    return true;
                PyErr_Clear();
            }
            if (src == Py_None)
            {
                value = nullptr;
                return true;
            }
        }
        return false;
    }
};
template <class T> struct ClassCaster : ClassBase
{
    bool load(PyObject *src, bool convert) { return load_as(Registry::find(typeid(T)), src, convert); }
    T *ptr() { return (T *)value; }
    T &ref()
    {
        if (!value)
            throw reference_cast_error();
        return *(T *)value;
    }
    static PyObject *out_ptr(const T *src, return_value_policy p, PyObject *parent, std::shared_ptr<void> holder = nullptr)
    {
        if (!src)
            Py_RETURN_NONE;
        TypeRec *rec = nullptr;
        const void *at = src;
        if constexpr (std::is_polymorphic<T>::value)
        {
            rec = Registry::find(typeid(*src));
            if (rec)
                at = dynamic_cast<const void *>(src);
        }
        if (!rec)
            rec = Registry::find(typeid(T)), at = src;
        if (!rec)
        {
            PyErr_Format(PyExc_TypeError, "Unregistered type : %s", typeid(T).name());
            return nullptr;
        }
        auto r = Registry::get().instances.equal_range(at);
        for (auto it = r.first; it != r.second; ++it)
            if (it->second->rec == rec)
            {
                Py_INCREF(it->second);
                return (PyObject *)it->second;
            }
        void *mine = nullptr;
        std::shared_ptr<void> *h = nullptr;
        if (holder)
            mine = (void *)at, h = new std::shared_ptr<void>(holder);
        else
            switch (p)
            {
            case return_value_policy::automatic:
            case return_value_policy::take_ownership:
                mine = (void *)at, h = new std::shared_ptr<void>(rec->own(mine));
                break;
            case return_value_policy::copy:
            case return_value_policy::move:
                mine = duplicate((T *)src, p), h = new std::shared_ptr<void>(std::shared_ptr<T>((T *)mine));
                rec = Registry::find(typeid(T));
                break;
            case return_value_policy::automatic_reference:
            case return_value_policy::reference:
            case return_value_policy::reference_internal:
                mine = (void *)at;
                break;
            }
        auto *i = (Inst *)check(inst_new(rec->type, nullptr, nullptr));
        adopt(i, rec, mine, h);
        if (p == return_value_policy::reference_internal && !h)
            keep((PyObject *)i, parent);
        return (PyObject *)i;
    }
    static T *duplicate(T *src, return_value_policy p)
    {
        if constexpr (std::is_move_constructible<T>::value)
            if (p == return_value_policy::move)
                return new T(std::move(*src));
        if constexpr (std::is_copy_constructible<T>::value)
            return new T(*src);
        throw cast_error("return_value_policy = copy, but type is non-copyable!");
    }
};
template <class T> struct Caster : ClassCaster<T>
{
    using Kind = std::true_type; // has ref()
};
template <class T> struct Plain
{
    using Kind = std::false_type;
    T value{};
};
template <class T> struct is_plain_char : std::is_same<T, char> {};

template <class T> struct Number : Plain<T>
{
    bool load(PyObject *src, bool convert)
    {
        if (!src)
            return false;
        if constexpr (std::is_floating_point<T>::value)
        {
            if (!convert && !PyFloat_Check(src))
                return false;
            double d = PyFloat_AsDouble(src);
            if (d == -1 && PyErr_Occurred())
            {
                PyErr_Clear();
                if (convert && PyNumber_Check(src))
                {
                    object t(PyNumber_Float(src), true);
                    PyErr_Clear();
                    return t && load(t.ptr(), false);
                }
                return false;
            }
            this->value = (T)d;
            return true;
        }
        else
        {
            if (PyFloat_Check(src))
                return false;
            if (!convert && !PyLong_Check(src) && !PyIndex_Check(src))
                return false;
            object idx;
            PyObject *s = src;
            if (!PyLong_Check(src))
            {
                idx = object(PyNumber_Index(src), true);
                if (!idx)
                {
                    PyErr_Clear();
                    if (!convert || !PyNumber_Check(src))
                        return false;
                    idx = object(PyNumber_Long(src), true);
                    PyErr_Clear();
                    if (!idx)
                        return false;
                }
                s = idx.ptr();
            }
            bool fits;
            if constexpr (std::is_unsigned<T>::value)
            {
                unsigned long long v = PyLong_AsUnsignedLongLong(s);
                fits = !(v == (unsigned long long)-1 && PyErr_Occurred()) && v <= (unsigned long long)std::numeric_limits<T>::max();
                this->value = (T)v;
            }
            else
            {
                long long v = PyLong_AsLongLong(s);
                fits = !(v == -1 && PyErr_Occurred()) && v >= (long long)std::numeric_limits<T>::min() && v <= (long long)std::numeric_limits<T>::max();
                this->value = (T)v;
            }
            PyErr_Clear();
            return fits;
        }
    }
    static PyObject *out(T v, return_value_policy, PyObject *)
    {
        if constexpr (std::is_floating_point<T>::value)
            return PyFloat_FromDouble(v);
        else if constexpr (std::is_unsigned<T>::value)
            return PyLong_FromUnsignedLongLong(v);
        else
            return PyLong_FromLongLong(v);
    }
};
#define PB_NUM(T)                                                                                                      \
    template <> struct Caster<T> : Number<T> {};
PB_NUM(signed char) PB_NUM(unsigned char) PB_NUM(short) PB_NUM(unsigned short) PB_NUM(int) PB_NUM(unsigned int)
PB_NUM(long) PB_NUM(unsigned long) PB_NUM(long long) PB_NUM(unsigned long long) PB_NUM(float) PB_NUM(double)
#undef PB_NUM
template <> struct Caster<bool> : Plain<bool>
{
    bool load(PyObject *src, bool convert)
    {
        if (src == Py_True || src == Py_False)
            return value = src == Py_True, true;
        if (!src || !(convert || std::string(Py_TYPE(src)->tp_name) == "numpy.bool_" || std::string(Py_TYPE(src)->tp_name) == "numpy.bool"))
            return false;
        int r = -1;
        if (src == Py_None)
            r = 0;
        else if (auto *n = Py_TYPE(src)->tp_as_number)
            if (n->nb_bool)
                r = n->nb_bool(src);
        if (r != 0 && r != 1)
            return PyErr_Clear(), false;
        return value = r, true;
    }
    static PyObject *out(bool v, return_value_policy, PyObject *) { return PyBool_FromLong(v); }
};
template <> struct Caster<char> : Plain<char>
{
    bool load(PyObject *src, bool)
    {
        if (!src || !PyUnicode_Check(src) || PyUnicode_GetLength(src) != 1)
            return false;
        auto c = PyUnicode_ReadChar(src, 0);
        if (c > 0xff)
            throw value_error("Character code point not in range(0x100)");
        value = (char)c;
        return true;
    }
    static PyObject *out(char v, return_value_policy, PyObject *) { return PyUnicode_DecodeLatin1(&v, 1, nullptr); }
};
template <> struct Caster<std::string> : Plain<std::string>
{
    bool load(PyObject *src, bool)
    {
        if (!src)
            return false;
        if (PyUnicode_Check(src))
        {
            Py_ssize_t n;
            auto *s = PyUnicode_AsUTF8AndSize(src, &n);
            if (!s)
                return PyErr_Clear(), false;
            value.assign(s, n);
            return true;
        }
        if (PyBytes_Check(src))
            return value.assign(PyBytes_AS_STRING(src), PyBytes_GET_SIZE(src)), true;
        if (PyByteArray_Check(src))
            return value.assign(PyByteArray_AS_STRING(src), PyByteArray_GET_SIZE(src)), true;
        return false;
    }
    static PyObject *out(const std::string &v, return_value_policy, PyObject *) { return check(PyUnicode_DecodeUTF8(v.data(), v.size(), nullptr)); }
};
template <class T> struct Caster<std::optional<T>> : Plain<std::optional<T>>
{
    bool load(PyObject *src, bool convert)
    {
        if (!src)
            return false;
        if (src == Py_None)
            return true;
        Caster<T> c;
        if (!c.load(src, convert))
            return false;
        if constexpr (Caster<T>::Kind::value)
            this->value.emplace(c.ref());
        else
            this->value.emplace(std::move(c.value));
        return true;
    }
    template <class U> static PyObject *out(U &&v, return_value_policy p, PyObject *parent)
    {
        if (!v)
            Py_RETURN_NONE;
        return cast_out(*std::forward<U>(v), p, parent);
    }
};
template <class T> T take(Caster<T> &c)
{
    if constexpr (Caster<T>::Kind::value)
        return c.ref();
    else
        return std::move(c.value);
}
// loads the elements of a sequence
template <class T, class F> bool each(PyObject *src, bool convert, F &&put)
{
    if (!src || !PySequence_Check(src) || PyUnicode_Check(src) || PyBytes_Check(src))
        return false;
    auto n = PySequence_Size(src);
    if (n < 0)
        return PyErr_Clear(), false;
    for (Py_ssize_t i = 0; i < n; ++i)
    {
        object o(PySequence_GetItem(src, i), true);
        if (!o)
            return PyErr_Clear(), false;
        Caster<T> c;
        if (!c.load(o.ptr(), convert))
            return false;
        put(i, take<T>(c));
    }
    return true;
}
template <class U, class C> PyObject *out_list(C &&v, return_value_policy p, PyObject *parent)
{
    object l(check(PyList_New(0)), true);
    for (auto &&x : v)
    {
        PyObject *o;
        if constexpr (std::is_lvalue_reference<C>::value)
            o = cast_out(x, p, parent);
        else
            o = cast_out(U(std::move(x)), return_value_policy::move, parent);
        object e(check(o), true);
        PyList_Append(l.ptr(), e.ptr());
    }
    return l.release();
}
template <class T> struct Caster<std::vector<T>> : Plain<std::vector<T>>
{
    bool load(PyObject *src, bool convert)
    {
        this->value.clear();
        return each<T>(src, convert, [&](Py_ssize_t, T &&x) { this->value.push_back(std::move(x)); });
    }
    template <class U> static PyObject *out(U &&v, return_value_policy p, PyObject *parent) { return out_list<T>(std::forward<U>(v), p, parent); }
};
template <class T, size_t N> struct Caster<std::array<T, N>> : Plain<std::array<T, N>>
{
    bool load(PyObject *src, bool convert)
    {
        if (!src || !PySequence_Check(src) || PySequence_Size(src) != (Py_ssize_t)N)
            return PyErr_Clear(), false;
        return each<T>(src, convert, [&](Py_ssize_t i, T &&x) { this->value[i] = std::move(x); });
    }
    template <class U> static PyObject *out(U &&v, return_value_policy p, PyObject *parent) { return out_list<T>(std::forward<U>(v), p, parent); }
};
template <class A, class B> struct Caster<std::pair<A, B>> : Plain<std::pair<A, B>>
{
    bool load(PyObject *src, bool convert)
    {
        if (!src || !PySequence_Check(src) || PySequence_Size(src) != 2)
            return PyErr_Clear(), false;
        object a(PySequence_GetItem(src, 0), true), b(PySequence_GetItem(src, 1), true);
        Caster<A> ca;
        Caster<B> cb;
        if (!ca.load(a.ptr(), convert) || !cb.load(b.ptr(), convert))
            return false;
        this->value = {take<A>(ca), take<B>(cb)};
        return true;
    }
    template <class U> static PyObject *out(U &&v, return_value_policy p, PyObject *parent)
    {
        object a(check(cast_out(v.first, p, parent)), true), b(check(cast_out(v.second, p, parent)), true);
        return PyTuple_Pack(2, a.ptr(), b.ptr());
    }
};
template <class K, class V, class M> struct MapCaster : Plain<M>
{
    bool load(PyObject *src, bool convert)
    {
        if (!src || !PyDict_Check(src))
            return false;
        PyObject *k, *v;
        Py_ssize_t pos = 0;
        while (PyDict_Next(src, &pos, &k, &v))
        {
            Caster<K> ck;
            Caster<V> cv;
            if (!ck.load(k, convert) || !cv.load(v, convert))
                return false;
            this->value.emplace(take<K>(ck), take<V>(cv));
        }
        return true;
    }
    template <class U> static PyObject *out(U &&m, return_value_policy p, PyObject *parent)
    {
        object d(check(PyDict_New()), true);
        for (auto &x : m)
        {
            object k(check(cast_out(x.first, p, parent)), true), v(check(cast_out(x.second, p, parent)), true);
            PyDict_SetItem(d.ptr(), k.ptr(), v.ptr());
        }
        return d.release();
    }
};
template <class K, class V> struct Caster<std::map<K, V>> : MapCaster<K, V, std::map<K, V>> {};
template <class K, class V, class H, class E> struct Caster<std::unordered_map<K, V, H, E>> : MapCaster<K, V, std::unordered_map<K, V, H, E>> {};
template <class T> struct Caster<std::shared_ptr<T>> : Plain<std::shared_ptr<T>>
{
    bool load(PyObject *src, bool convert)
    {
        ClassCaster<std::remove_const_t<T>> c;
        if (!c.load(src, convert))
            return false;
        if (!c.value)
            return true;
        if (!c.inst->holder)
            throw cast_error("Unable to cast from non-held to held instance (T& to Holder<T>)");
        this->value = std::shared_ptr<T>(*c.inst->holder, (T *)c.value);
        return true;
    }
    static PyObject *out(const std::shared_ptr<T> &v, return_value_policy, PyObject *)
    {
        using U = std::remove_const_t<T>;
        return ClassCaster<U>::out_ptr(v.get(), return_value_policy::take_ownership, nullptr, std::const_pointer_cast<U>(v));
    }
};
template <class T, class = void> struct is_py : std::false_type {};
template <class T> struct is_py<T, std::enable_if_t<std::is_base_of<handle, T>::value>> : std::true_type {};
template <class T> struct PyCaster : Plain<T>
{
    bool load(PyObject *src, bool)
    {
        if constexpr (std::is_same<T, object>::value || std::is_same<T, handle>::value)
            ;
        else if (!src || !T::check_(src))
            return false;
        if constexpr (std::is_same<T, handle>::value)
            this->value = handle(src);
        else
            this->value = T(src, false);
        return true;
    }
};
#define PB_PY(T)                                                                                                       \
    template <> struct Caster<T>                                                                                       \
    {                                                                                                                  \
        using Kind = std::false_type;                                                                                  \
        T value = T(nullptr, true);                                                                                    \
        bool load(PyObject *src, bool)                                                                                 \
        {                                                                                                              \
            if (!src || !T::check_(src))                                                                               \
                return false;                                                                                          \
            value = T(src, false);                                                                                     \
            return true;                                                                                               \
        }                                                                                                              \
    };
PB_PY(tuple) PB_PY(list) PB_PY(dict) PB_PY(bytes) PB_PY(str) PB_PY(slice) PB_PY(iterator)
#undef PB_PY
template <> struct Caster<object> : PyCaster<object> {};
template <> struct Caster<handle> : PyCaster<handle> {};

template <class T> PyObject *cast_out(T &&v, return_value_policy p, PyObject *parent)
{
    using D = std::decay_t<T>;
    if constexpr (std::is_same<D, const char *>::value || std::is_same<D, char *>::value)
        return check(PyUnicode_FromString(v));
    else if constexpr (is_py<D>::value)
    {
        Py_XINCREF(v.ptr());
        return v.ptr();
    }
    else if constexpr (std::is_pointer<D>::value)
    {
        using C = std::remove_const_t<std::remove_pointer_t<D>>;
        if (p == return_value_policy::automatic)
            p = return_value_policy::take_ownership;
        return ClassCaster<C>::out_ptr(v, p, parent);
    }
    else if constexpr (Caster<D>::Kind::value)
    {
        if (!std::is_lvalue_reference<T>::value)
            p = return_value_policy::move;
        else if (p == return_value_policy::automatic || p == return_value_policy::automatic_reference)
            p = return_value_policy::copy;
        return ClassCaster<D>::out_ptr(&v, p, parent);
    }
    else
        return Caster<D>::out(std::forward<T>(v), p, parent);
}
template <class T> object cast(T &&v) { return object(check(cast_out(std::forward<T>(v), return_value_policy::automatic_reference, nullptr)), true); }
template <class T> T handle::cast() const
{
    Caster<std::decay_t<T>> c;
    if (!c.load(m_ptr, true))
        throw cast_error("Unable to cast Python instance to C++ type");
    return take<std::decay_t<T>>(c);
}
template <class... A> tuple make_tuple(A &&...a)
{
    std::vector<object> os;
    (os.push_back(object(check(cast_out(std::forward<A>(a), return_value_policy::automatic_reference, nullptr)), true)), ...);
    tuple t(check(PyTuple_New(os.size())), true);
    for (size_t i = 0; i < os.size(); ++i)
        PyTuple_SET_ITEM(t.ptr(), i, os[i].release());
    return t;
}

// ---- functions
struct arg_v;
struct arg
{
    const char *name;
    explicit arg(const char *n) : name(n) {}
    template <class T> arg_v operator=(T &&v) const;
    arg &noconvert(bool = true) { return *this; }
};
struct arg_v : arg
{
    object value;
    template <class T>
    arg_v(const arg &a, T &&v) : arg(a), value(check(cast_out(std::forward<T>(v), return_value_policy::automatic, nullptr)), true)
    {
    }
};
template <class T> arg_v arg::operator=(T &&v) const { return arg_v(*this, std::forward<T>(v)); }
struct is_operator {};
struct buffer_protocol {};
struct dynamic_attr {};
struct kw_only {};
template <size_t N, size_t P> struct keep_alive {};
struct doc { const char *s; };

struct ArgRec { std::string name; object value; };
struct Overload
{
    std::vector<ArgRec> args;
    size_t nargs = 0;
    bool named = false, op = false, ctor = false;
    return_value_policy policy = return_value_policy::automatic;
    std::vector<std::pair<size_t, size_t>> keep;
    std::function<PyObject *(std::vector<PyObject *> &, bool, const Overload &)> call;
};
inline PyObject *try_next() { return (PyObject *)1; }
struct Function
{
    std::string name;
    std::vector<Overload> overloads;
    PyMethodDef def;
};
template <class F> PyObject *guarded(F &&f)
{
    try
    {
        return f();
    }
    catch (const error_already_set &) { if (!PyErr_Occurred()) PyErr_SetString(PyExc_RuntimeError, "unknown Python error"); }
    catch (const index_error &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const key_error &e) { PyErr_SetString(PyExc_KeyError, e.what()); }
    catch (const value_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const type_error &e) { PyErr_SetString(PyExc_TypeError, e.what()); }
    catch (const stop_iteration &e) { PyErr_SetString(PyExc_StopIteration, e.what()); }
    catch (const std::bad_alloc &e) { PyErr_SetString(PyExc_MemoryError, e.what()); }
    catch (const std::domain_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::invalid_argument &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::length_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::out_of_range &e) { PyErr_SetString(PyExc_IndexError, e.what()); }
    catch (const std::range_error &e) { PyErr_SetString(PyExc_ValueError, e.what()); }
    catch (const std::overflow_error &e) { PyErr_SetString(PyExc_OverflowError, e.what()); }
    catch (const std::exception &e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
    catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
    return nullptr;
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs)
{
    auto *fn = (Function *)PyCapsule_GetPointer(self, nullptr);
    return guarded([&]() -> PyObject * {
        size_t n = PyTuple_GET_SIZE(args), nk = kwargs ? PyDict_Size(kwargs) : 0;
        bool many = fn->overloads.size() > 1;
        for (int pass = many ? 0 : 1; pass < 2; ++pass)
            for (auto &o : fn->overloads)
            {
                if (n > o.nargs)
                    continue;
                std::vector<PyObject *> a;
                for (size_t i = 0; i < n; ++i)
                    a.push_back(PyTuple_GET_ITEM(args, i));
                size_t used = 0;
                bool ok = true;
                for (size_t i = n; i < o.nargs && ok; ++i)
                {
                    PyObject *v = nullptr;
                    if (o.named && !o.args[i].name.empty() && kwargs)
                        if ((v = PyDict_GetItemString(kwargs, o.args[i].name.c_str())))
                            ++used;
                    if (!v && o.named)
                        v = o.args[i].value.ptr();
                    ok = v != nullptr;
                    a.push_back(v);
                }
                if (!ok || used != nk)
                    continue;
                PyObject *r;
                try
                {
                    r = o.call(a, pass == 1, o);
                }
                catch (const reference_cast_error &)
                {
                    r = try_next();
                }
                if (r == try_next())
                    continue;
                if (r)
                    for (auto &k : o.keep)
                        keep(k.first ? a[k.first - 1] : r, k.second ? a[k.second - 1] : r);
                return r;
            }
        if (!fn->overloads.empty() && fn->overloads[0].op)
            Py_RETURN_NOTIMPLEMENTED;
        PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", fn->name.c_str());
        return nullptr;
    });
}
inline void process(Overload &o, const arg &a)
{
    o.named = true;
    o.args.push_back({a.name, object()});
}
inline void process(Overload &o, const arg_v &a)
{
    o.named = true;
    o.args.push_back({a.name, a.value});
}
inline void process(Overload &o, const is_operator &) { o.op = true; }
inline void process(Overload &o, const return_value_policy &p) { o.policy = p; }
inline void process(Overload &, const char *) {}
inline void process(Overload &, const doc &) {}
inline void process(Overload &, const kw_only &) {}
template <size_t N, size_t P> void process(Overload &o, const keep_alive<N, P> &) { o.keep.emplace_back(N, P); }

template <class A, class C> decltype(auto) pass(C &c)
{
    using D = std::decay_t<A>;
    if constexpr (std::is_pointer<A>::value)
        return c.ptr();
    else if constexpr (C::Kind::value)
        return c.ref();
    else
        return (c.value);
}
template <class A> using ArgCaster = Caster<std::remove_const_t<std::remove_pointer_t<std::decay_t<A>>>>;
template <class A, class C> A &&forward_arg(C &c);

template <class A, class C> struct Fwd
{
    // by value: a copy of an instance, or the converted value itself
    static A get(C &c)
    {
        if constexpr (std::is_pointer<A>::value)
            return c.ptr();
        else if constexpr (C::Kind::value)
            return c.ref();
        else
            return std::move(c.value);
    }
};
template <class A, class C> struct Fwd<A &, C>
{
    static A &get(C &c)
    {
        if constexpr (C::Kind::value)
            return c.ref();
        else
            return c.value;
    }
};
template <class A, class C> struct Fwd<A &&, C>
{
    static A &&get(C &c)
    {
        if constexpr (C::Kind::value)
            return std::move(c.ref());
        else
            return std::move(c.value);
    }
};
template <class R, class... A> struct Invoker
{
    template <class F, size_t... I>
    static PyObject *run(F &f, std::vector<PyObject *> &a, bool convert, const Overload &o, std::index_sequence<I...>)
    {
        std::tuple<ArgCaster<A>...> cs;
        if (!(std::get<I>(cs).load(a[I], convert) && ...))
            return try_next();
        if constexpr (std::is_void<R>::value)
        {
            f(Fwd<A, ArgCaster<A>>::get(std::get<I>(cs))...);
            Py_RETURN_NONE;
        }
        else
        {
            auto &&r = f(Fwd<A, ArgCaster<A>>::get(std::get<I>(cs))...);
            auto *parent = a.empty() ? nullptr : a[0];
            if constexpr (std::is_reference<R>::value)
                return check(cast_out(r, o.policy, parent));
            else
                return check(cast_out(std::move(r), o.policy, parent));
        }
    }
    template <class F> static Overload make(F f)
    {
        Overload o;
        o.nargs = sizeof...(A);
        o.call = [f](std::vector<PyObject *> &a, bool convert, const Overload &o) mutable {
            return run(f, a, convert, o, std::index_sequence_for<A...>{});
        };
        return o;
    }
};
template <class F> struct Sig : Sig<decltype(&F::operator())> {};
template <class C, class R, class... A> struct Sig<R (C::*)(A...) const>
{
    using I = Invoker<R, A...>;
};
template <class C, class R, class... A> struct Sig<R (C::*)(A...)>
{
    using I = Invoker<R, A...>;
};
// Self: the class a method is defined for
template <class Self, class F> Overload overload_of(F f) { return Sig<F>::I::make(f); }
template <class Self, class R, class... A> Overload overload_of(R (*f)(A...)) { return Invoker<R, A...>::make(f); }
template <class Self, class R, class C, class... A> Overload overload_of(R (C::*f)(A...))
{
    return Invoker<R, Self &, A...>::make([f](Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
template <class Self, class R, class C, class... A> Overload overload_of(R (C::*f)(A...) const)
{
    return Invoker<R, const Self &, A...>::make([f](const Self &s, A... a) -> R { return (s.*f)(std::forward<A>(a)...); });
}
inline Function *new_function(PyObject *scope, const char *name, bool method)
{
    auto *fn = new Function;
    fn->name = name;
    fn->def = {fn->name.c_str(), (PyCFunction)(void (*)(void))dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
    object cap(check(PyCapsule_New(fn, nullptr, nullptr)), true);
    object f(check(PyCFunction_NewEx(&fn->def, cap.ptr(), nullptr)), true);
    object g = method ? object(check(PyInstanceMethod_New(f.ptr())), true) : scope && PyType_Check(scope) ? object(check(PyStaticMethod_New(f.ptr())), true) : f;
    if (scope)
        if (PyObject_SetAttrString(scope, name, g.ptr()) < 0)
            throw error_already_set();
    return fn;
}
// for getters and setters
inline object property_function(Overload o)
{
    auto *fn = new Function;
    fn->name = "property";
    fn->def = {fn->name.c_str(), (PyCFunction)(void (*)(void))dispatch, METH_VARARGS | METH_KEYWORDS, nullptr};
    fn->overloads.push_back(std::move(o));
    object cap(check(PyCapsule_New(fn, nullptr, nullptr)), true);
    return object(check(PyCFunction_NewEx(&fn->def, cap.ptr(), nullptr)), true);
}
struct Scope
{
    std::map<std::string, Function *> functions;
    PyObject *self = nullptr;
    template <class... E> void add(const char *name, Overload o, bool method, const E &...extra)
    {
        if (method && !o.args.size() && false)
            ;
        if (method)
            o.args.push_back({"self", object()});
        (process(o, extra), ...);
        if (!o.named)
            o.args.clear();
        else if (o.args.size() != o.nargs)
            throw std::runtime_error(std::string("wrong number of py::arg for ") + name);
        auto &f = functions[name];
        if (!f)
            f = new_function(self, name, method);
        f->overloads.push_back(std::move(o));
    }
};
struct module_ : object
{
    Scope scope;
    explicit module_(PyObject *m) : object(m, false) { scope.self = m; }
    template <class F, class... E> module_ &def(const char *name, F f, const E &...extra)
    {
        scope.add(name, overload_of<void>(f), false, extra...);
        return *this;
    }
};
template <class... A> struct overload_cast_impl
{
    template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> static constexpr overload_cast_impl<A...> overload_cast{};
static constexpr auto const_ = std::true_type{};

template <class... A> struct init {};
template <class F> struct init_factory { F f; };
template <class G, class S> struct pickle_t { G get; S set; };
template <class G, class S> pickle_t<G, S> pickle(G g, S s) { return {g, s}; }
struct self_t {};
static const self_t self{};
enum class Op { eq, ne, lt, le, gt, ge, add, sub, mul, div, hash };
template <Op O> struct op_t {};
inline op_t<Op::eq> operator==(const self_t &, const self_t &) { return {}; }
inline op_t<Op::ne> operator!=(const self_t &, const self_t &) { return {}; }
inline op_t<Op::lt> operator<(const self_t &, const self_t &) { return {}; }
inline op_t<Op::le> operator<=(const self_t &, const self_t &) { return {}; }
inline op_t<Op::gt> operator>(const self_t &, const self_t &) { return {}; }
inline op_t<Op::ge> operator>=(const self_t &, const self_t &) { return {}; }
inline op_t<Op::add> operator+(const self_t &, const self_t &) { return {}; }
inline op_t<Op::sub> operator-(const self_t &, const self_t &) { return {}; }
inline op_t<Op::mul> operator*(const self_t &, const self_t &) { return {}; }
inline op_t<Op::div> operator/(const self_t &, const self_t &) { return {}; }
inline op_t<Op::hash> hash(const self_t &) { return {}; }

template <class T> struct is_shared : std::false_type {};
template <class T> struct is_shared<std::shared_ptr<T>> : std::true_type {};
inline int no_buffer(PyObject *, Py_buffer *, int) { return -1; }

template <class T, class... Opt> struct class_
{
    TypeRec *rec;
    Scope *scope;
    std::string full;

    template <class... E> class_(module_ &m, const char *name, const E &...extra)
    {
        constexpr bool buffer = (std::is_same<E, buffer_protocol>::value || ...);
        rec = new TypeRec{std::type_index(typeid(T))};
        rec->name = name;
        rec->shared = (is_shared<Opt>::value || ...);
        rec->own = [](void *p) -> std::shared_ptr<void> { return std::shared_ptr<T>((T *)p); };
        auto *full = new std::string(std::string(PyModule_GetName(m.ptr())) + "." + name);
        std::vector<PyType_Slot> slots = {{Py_tp_new, (void *)inst_new}, {Py_tp_init, (void *)inst_init}, {Py_tp_dealloc, (void *)inst_dealloc}};
        if constexpr (buffer)
        {
            slots.push_back({Py_bf_getbuffer, (void *)+[](PyObject *o, Py_buffer *b, int flags) -> int {
                auto *v = (T *)((Inst *)o)->ptr;
                static char none;
                int r = PyBuffer_FillInfo(b, o, v->empty() ? &none : (void *)v->data(), (Py_ssize_t)v->size(), 0, flags);
                if (!r && (flags & PyBUF_FORMAT))
                    b->format = (char *)"b";
                return r;
            }});
        }
        slots.push_back({0, nullptr});
        PyMemberDef *members = new PyMemberDef[2]{{"__weaklistoffset__", T_PYSSIZET_, (Py_ssize_t)offsetof(Inst, weak), 1 /* READONLY */, nullptr}, {nullptr}};
        slots.insert(slots.begin(), PyType_Slot{Py_tp_members, members});
        PyType_Spec spec = {full->c_str(), sizeof(Inst), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots.data()};
        rec->type = (PyTypeObject *)check(PyType_FromSpec(&spec));
        Registry::get().types[rec->id] = rec;
        Registry::get().by_py[rec->type] = rec;
        Py_INCREF(rec->type);
        PyModule_AddObject(m.ptr(), name, (PyObject *)rec->type);
        scope = new Scope;
        scope->self = (PyObject *)rec->type;
    }
    static constexpr int T_PYSSIZET_ = 19;

    template <class F, class... E> class_ &def(const char *name, F f, const E &...extra)
    {
        scope->add(name, overload_of<T>(f), true, extra...);
        if (!strcmp(name, "__eq__") && !scope->functions.count("__hash__"))
            PyObject_SetAttrString(scope->self, "__hash__", Py_None);
        return *this;
    }
    template <class F, class... E> class_ &def_static(const char *name, F f, const E &...extra)
    {
        scope->add(name, overload_of<T>(f), false, extra...);
        return *this;
    }
    // ---- constructors
    template <class... A, class F, class... E> void add_ctor(const char *name, F make, const E &...extra)
    {
        Overload o;
        o.nargs = sizeof...(A) + 1;
        o.ctor = true;
        auto *r = rec;
        o.call = [r, make](std::vector<PyObject *> &a, bool convert, const Overload &) -> PyObject * {
            if (!PyObject_TypeCheck(a[0], r->type))
                return try_next();
            auto *i = (Inst *)a[0];
            if (i->ptr)
                Py_RETURN_NONE;
            return construct<A...>(i, r, make, a, convert, std::index_sequence_for<A...>{});
        };
        scope->add(name, std::move(o), true, extra...);
    }
    template <class... A, class F, size_t... I>
    static PyObject *construct(Inst *i, TypeRec *r, const F &make, std::vector<PyObject *> &a, bool convert, std::index_sequence<I...>)
    {
        std::tuple<ArgCaster<A>...> cs;
        if (!(std::get<I>(cs).load(a[I + 1], convert) && ...))
            return try_next();
        std::shared_ptr<T> p(make(Fwd<A, ArgCaster<A>>::get(std::get<I>(cs))...));
        adopt(i, r, p.get(), new std::shared_ptr<void>(p));
        Py_RETURN_NONE;
    }
    template <class... A, class... E> class_ &def(const init<A...> &, const E &...extra)
    {
        add_ctor<A...>(
            "__init__",
            [](A... a) -> T * {
                if constexpr (std::is_constructible<T, A...>::value)
                    return new T(std::forward<A>(a)...);
                else
                    return new T{std::forward<A>(a)...};
            },
            extra...);
        return *this;
    }
    template <class G, class S> class_ &def(const pickle_t<G, S> &p)
    {
        def("__getstate__", p.get);
        set_state(p.set, &S::operator());
        return *this;
    }
    template <class S, class R, class A> void set_state(S set, R (S::*)(A) const)
    {
        add_ctor<A>("__setstate__", [set](A a) {
            if constexpr (std::is_pointer<R>::value || is_shared<R>::value)
                return set(std::forward<A>(a));
            else
                return new T(set(std::forward<A>(a)));
        });
    }
    // ---- operators
    template <Op O, class... E> class_ &def(const op_t<O> &, const E &...extra)
    {
        if constexpr (O == Op::eq)
            return def("__eq__", [](const T &a, const T &b) { return a == b; }, is_operator());
        else if constexpr (O == Op::ne)
            return def("__ne__", [](const T &a, const T &b) { return a != b; }, is_operator());
        else if constexpr (O == Op::lt)
            return def("__lt__", [](const T &a, const T &b) { return a < b; }, is_operator());
        else if constexpr (O == Op::le)
            return def("__le__", [](const T &a, const T &b) { return a <= b; }, is_operator());
        else if constexpr (O == Op::gt)
            return def("__gt__", [](const T &a, const T &b) { return a > b; }, is_operator());
        else if constexpr (O == Op::ge)
            return def("__ge__", [](const T &a, const T &b) { return a >= b; }, is_operator());
        else if constexpr (O == Op::add)
            return def("__add__", [](const T &a, const T &b) { return a + b; }, is_operator());
        else if constexpr (O == Op::sub)
            return def("__sub__", [](const T &a, const T &b) { return a - b; }, is_operator());
        else if constexpr (O == Op::mul)
            return def("__mul__", [](const T &a, const T &b) { return a * b; }, is_operator());
        else if constexpr (O == Op::div)
            return def("__truediv__", [](const T &a, const T &b) { return a / b; }, is_operator());
        else
            return def("__hash__", [](const T &a) { return (Py_ssize_t)std::hash<T>()(a); }, is_operator());
    }
    // ---- attributes
    void property(const char *name, object get, object set)
    {
        object p(check(PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, get ? get.ptr() : Py_None, set ? set.ptr() : Py_None, nullptr)), true);
        if (PyObject_SetAttrString(scope->self, name, p.ptr()) < 0)
            throw error_already_set();
    }
    template <class G, class... E> object getter(G g, const E &...extra)
    {
        Overload o = overload_of<T>(g);
        o.policy = return_value_policy::reference_internal;
        (process(o, extra), ...);
        o.args.clear(), o.named = false;
        return property_function(std::move(o));
    }
    template <class... E> object getter(std::nullptr_t, const E &...) { return object(); }
    template <class G, class S, class... E> class_ &def_property(const char *name, G g, S s, const E &...extra)
    {
        property(name, getter(g, extra...), property_function(overload_of<T>(s)));
        return *this;
    }
    template <class G, class... E> class_ &def_property_readonly(const char *name, G g, const E &...extra)
    {
        property(name, getter(g, extra...), object());
        return *this;
    }
    template <class C, class D, class... E> class_ &def_readwrite(const char *name, D C::*m, const E &...extra)
    {
        return def_property(
            name, [m](const T &c) -> const D & { return c.*m; }, [m](T &c, const D &v) { c.*m = v; }, extra...);
    }
    template <class C, class D, class... E> class_ &def_readonly(const char *name, D C::*m, const E &...extra)
    {
        return def_property_readonly(name, [m](const T &c) -> const D & { return c.*m; }, extra...);
    }
};

template <class In, class Out> void implicitly_convertible()
{
    auto *rec = Registry::find(typeid(Out));
    rec->implicit.push_back([](PyObject *o, PyTypeObject *type) -> object {
        static bool busy = false;
        if (busy)
            return object();
        struct Guard
        {
            bool &b;
            Guard(bool &x) : b(x) { b = true; }
            ~Guard() { b = false; }
        } g(busy);
        Caster<In> c;
        if (!c.load(o, false))
            return object();
        object r(PyObject_CallFunctionObjArgs((PyObject *)type, o, nullptr), true);
        if (!r)
            PyErr_Clear();
        return r;
    });
}

// ---- opaque vectors
struct buffer_arg : object
{
    using object::object;
    static bool check_(PyObject *p) { return PyObject_CheckBuffer(p); }
};
struct iterable_arg : object
{
    using object::object;
    static bool check_(PyObject *p)
    {
        object it(PyObject_GetIter(p), true);
        PyErr_Clear();
        return bool(it);
    }
};
template <> struct Caster<buffer_arg> : PyCaster<buffer_arg> {};
template <> struct Caster<iterable_arg> : PyCaster<iterable_arg> {};
template <class V, class... E> class_<V> bind_vector(module_ &m, const char *name, const E &...extra)
{
    using T = typename V::value_type;
    class_<V> c(m, name, extra...);
    auto wrap = [](Py_ssize_t i, size_t n) {
        if (i < 0)
            i += n;
        if (i < 0 || (size_t)i >= n)
            throw index_error();
        return (size_t)i;
    };
    c.def(init<>());
    c.def(init<const V &>());
    if constexpr ((std::is_same<E, buffer_protocol>::value || ...))
        c.template add_ctor<const buffer_arg &>("__init__", [](const buffer_arg &b) -> V * {
            Py_buffer view;
            if (PyObject_GetBuffer(b.ptr(), &view, PyBUF_STRIDES | PyBUF_FORMAT) < 0)
                throw error_already_set();
            std::unique_ptr<Py_buffer, void (*)(Py_buffer *)> guard(&view, PyBuffer_Release);
            if (view.ndim != 1)
                throw type_error("Only valid 1D buffers can be copied to a vector");
            if (!view.format || strcmp(view.format, "b") || view.itemsize != sizeof(T))
                throw type_error("Format mismatch");
            auto *v = new V;
            for (Py_ssize_t i = 0; i < view.shape[0]; ++i)
                v->push_back(*(T *)((char *)view.buf + i * view.strides[0]));
            return v;
        });
    c.def(self == self).def(self != self);
    c.def("count", [](const V &v, const T &x) { return std::count(v.begin(), v.end(), x); });
    c.def("__contains__", [](const V &v, const T &x) { return std::find(v.begin(), v.end(), x) != v.end(); });
    c.def("remove", [](V &v, const T &x) {
        auto p = std::find(v.begin(), v.end(), x);
        if (p == v.end())
            throw value_error();
        v.erase(p);
    });
    c.def("__repr__", [name = std::string(name)](V &v) {
        std::ostringstream s;
        s << name << '[';
        for (size_t i = 0; i < v.size(); ++i)
            s << (i ? ", " : "") << v[i];
        s << ']';
        return s.str();
    });
    c.def("append", [](V &v, const T &x) { v.push_back(x); });
    c.template add_ctor<const iterable_arg &>("__init__", [](const iterable_arg &it) -> V * {
        auto v = std::make_unique<V>();
        object i(check(PyObject_GetIter(it.ptr())), true);
        while (PyObject *x = PyIter_Next(i.ptr()))
            v->push_back(object(x, true).template cast<T>());
        if (PyErr_Occurred())
            throw error_already_set();
        return v.release();
    });
    c.def("clear", [](V &v) { v.clear(); });
    c.def("extend", [](V &v, const V &s) { v.insert(v.end(), s.begin(), s.end()); });
    c.def("extend", [](V &v, const iterable_arg &it) {
        object i(check(PyObject_GetIter(it.ptr())), true);
        while (PyObject *x = PyIter_Next(i.ptr()))
            v.push_back(object(x, true).template cast<T>());
        if (PyErr_Occurred())
            throw error_already_set();
    });
    c.def("insert", [](V &v, Py_ssize_t i, const T &x) {
        if (i < 0)
            i += v.size();
        if (i < 0 || (size_t)i > v.size())
            throw index_error();
        v.insert(v.begin() + i, x);
    });
    c.def("pop", [](V &v) {
        if (v.empty())
            throw index_error();
        T t = std::move(v.back());
        v.pop_back();
        return t;
    });
    c.def("pop", [wrap](V &v, Py_ssize_t i) {
        auto k = wrap(i, v.size());
        T t = std::move(v[k]);
        v.erase(v.begin() + k);
        return t;
    });
    c.def("__setitem__", [wrap](V &v, Py_ssize_t i, const T &t) { v[wrap(i, v.size())] = t; });
    c.def("__getitem__", [](const V &v, const slice &s) -> V * {
        size_t start, stop, step, n;
        if (!s.compute(v.size(), &start, &stop, &step, &n))
            throw error_already_set();
        auto *r = new V;
        for (size_t i = 0; i < n; ++i, start += step)
            r->push_back(v[start]);
        return r;
    });
    c.def("__setitem__", [](V &v, const slice &s, const V &value) {
        size_t start, stop, step, n;
        if (!s.compute(v.size(), &start, &stop, &step, &n))
            throw error_already_set();
        if (n != value.size())
            throw std::runtime_error("Left and right hand size of slice assignment have different sizes!");
        for (size_t i = 0; i < n; ++i, start += step)
            v[start] = value[i];
    });
    c.def("__delitem__", [wrap](V &v, Py_ssize_t i) { v.erase(v.begin() + wrap(i, v.size())); });
    c.def("__getitem__", [wrap](V &v, Py_ssize_t i) -> T & { return v[wrap(i, v.size())]; });
    c.def("__iter__", [](V &v) { return make_iterator(v.begin(), v.end()); }, keep_alive<0, 1>());
    c.def("__bool__", [](const V &v) { return !v.empty(); });
    c.def("__len__", [](const V &v) { return v.size(); });
    return c;
}
} // namespace pybind11

#define PYBIND11_MAKE_OPAQUE(...)                                                                                      \
    namespace pybind11                                                                                                 \
    {                                                                                                                  \
    template <> struct Caster<__VA_ARGS__> : ClassCaster<__VA_ARGS__>                                                  \
    {                                                                                                                  \
        using Kind = std::true_type;                                                                                   \
    };                                                                                                                 \
    }
#define PYBIND11_MODULE(name, var)                                                                                     \
    static void pybind_module_##name(pybind11::module_ &);                                                             \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                        \
    {                                                                                                                  \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};                                 \
        PyObject *mod = PyModule_Create(&def);                                                                         \
        if (!mod)                                                                                                      \
            return nullptr;                                                                                            \
        PyObject *r = pybind11::guarded([&]() -> PyObject * {                                                          \
            pybind11::module_ m(mod);                                                                                  \
            pybind_module_##name(m);                                                                                   \
            return mod;                                                                                                \
        });                                                                                                            \
        return r;                                                                                                      \
    }                                                                                                                  \
    static void pybind_module_##name(pybind11::module_ &var)
