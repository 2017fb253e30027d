// A stand-in for pybind11: the registrations are recorded, calls are dispatched as pybind11 does
// (overloads in the order of their definition, arguments converted one by one, arrays copied in
// both directions, TypeError when nothing matches or a type is not registered).
#pragma once
#include <Eigen/Dense>
#include <any>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <vector>

namespace pybind11
{
    struct TypeError : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };
    struct AttributeError : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };
    // a Python object
    struct Value
    {
        enum Kind
        {
            NONE,
            BOOL,
            INT,
            FLOAT,
            STR,
            ARRAY, // numpy; dim 1 or 2
            LIST,
            DICT,
            TIMEDELTA,
            CALLABLE,
            OBJECT
        } kind = NONE;
        bool b = false;
        long long i = 0;
        double f = 0;
        std::string s;
        Eigen::MatrixXd a;
        int dim = 0;
        std::vector<Value> list;
        std::vector<std::pair<Value, Value>> dict;
        std::function<Value(const std::vector<Value> &)> fn;
        std::shared_ptr<void> obj;
        std::type_index type = typeid(void);

        Value() = default;
        static Value Bool(bool x)
        {
            Value v;
            v.kind = BOOL, v.b = x;
            return v;
        }
        static Value Int(long long x)
        {
            Value v;
            v.kind = INT, v.i = x;
            return v;
        }
        static Value Float(double x)
        {
            Value v;
            v.kind = FLOAT, v.f = x;
            return v;
        }
        static Value Array(const Eigen::MatrixXd &x, int dim)
        {
            Value v;
            v.kind = ARRAY, v.a = x, v.dim = dim;
            return v;
        }
        static Value List(const std::vector<double> &x)
        {
            Value v;
            v.kind = LIST;
            for (double e : x)
                v.list.push_back(Float(e));
            return v;
        }
        static Value Callable(std::function<Value(const std::vector<Value> &)> f)
        {
            Value v;
            v.kind = CALLABLE, v.fn = std::move(f);
            return v;
        }
        static Value Str(const std::string &x)
        {
            Value v;
            v.kind = STR, v.s = x;
            return v;
        }
    };
    using Args = std::vector<Value>;

    // annotations, which change nothing here except for the names of the arguments
    struct arg_v
    {
        Value v;
    };
    struct arg
    {
        arg(const char *) {}
        template <class T>
        arg_v operator=(const T &x) const;
        arg &noconvert(bool = true) { return *this; }
        arg &none(bool = true) { return *this; }
    };
    inline namespace literals
    {
        inline arg operator""_a(const char *n, size_t) { return arg(n); }
    }
    enum class return_value_policy
    {
        automatic,
        copy,
        move,
        reference,
        reference_internal
    };
    template <class... T>
    struct call_guard
    {
    };
    struct gil_scoped_release
    {
    };
    struct gil_scoped_acquire
    {
    };

    // the registered types
    struct Overload
    {
        std::function<bool(Value *self, const Args &, Value &out)> call; // false: the arguments do not match
    };
    struct Class
    {
        std::string name;
        std::type_index type = typeid(void);
        std::vector<std::type_index> bases;
        std::map<std::string, std::vector<Overload>> methods;
        std::vector<Overload> init;
        std::map<std::string, std::function<Value(void *)>> get;
        std::map<std::string, std::function<bool(void *, const Value &)>> set;
        std::map<std::string, Value> values; // of an enumeration
        std::function<bool(const void *, const void *)> equal;
        std::map<std::type_index, std::function<void *(void *)>> up; // to a base
    };
    struct Module
    {
        std::map<std::type_index, std::shared_ptr<Class>> types;
        std::map<std::string, std::shared_ptr<Class>> names;
        std::map<std::string, Value> attributes;
        static Module &get()
        {
            static Module m;
            return m;
        }
    };

    // C++ to Python
    template <class T>
    struct IsEigen : std::false_type
    {
    };
    template <int R, int C, int O, int MR, int MC>
    struct IsEigen<Eigen::Matrix<double, R, C, O, MR, MC>> : std::true_type
    {
        static constexpr bool vector = R == 1 || C == 1;
        static constexpr int rows = R, cols = C;
    };
    template <class T>
    struct IsVector : std::false_type
    {
    };
    template <class T>
    struct IsVector<std::vector<T>> : std::true_type
    {
    };
    template <class T>
    struct IsMap : std::false_type
    {
    };
    template <class K, class T>
    struct IsMap<std::map<K, T>> : std::true_type
    {
    };
    template <class T>
    struct IsDuration : std::false_type
    {
    };
    template <class R, class P>
    struct IsDuration<std::chrono::duration<R, P>> : std::true_type
    {
    };
    template <class T>
    struct IsFunction : std::false_type
    {
    };
    template <class R, class... A>
    struct IsFunction<std::function<R(A...)>> : std::true_type
    {
    };

    template <class X>
    Value cast(const X &x)
    {
        using T = std::decay_t<X>;
        Value v;
        if constexpr (std::is_same_v<T, bool>)
            return Value::Bool(x);
        else if constexpr (std::is_integral_v<T>)
            return Value::Int(x);
        else if constexpr (std::is_floating_point_v<T>)
            return Value::Float(x);
        else if constexpr (std::is_same_v<T, std::string>)
            return Value::Str(x);
        else if constexpr (std::is_convertible_v<X, const char *>)
            return Value::Str(x);
        else if constexpr (IsEigen<T>::value)
            return Value::Array(x, IsEigen<T>::vector ? 1 : 2);
        else if constexpr (IsDuration<T>::value)
        {
            v.kind = Value::TIMEDELTA;
            v.f = std::chrono::duration<double>(x).count();
            return v;
        }
        else if constexpr (IsVector<T>::value)
        {
            v.kind = Value::LIST;
            for (const auto &e : x)
                v.list.push_back(cast(e));
            return v;
        }
        else if constexpr (IsMap<T>::value)
        {
            v.kind = Value::DICT;
            for (const auto &e : x)
                v.dict.push_back({cast(e.first), cast(e.second)});
            return v;
        }
        else
        {
            if (!Module::get().types.count(typeid(T)))
                throw TypeError(std::string("Unable to convert function return value to a Python type: ") + typeid(T).name());
            v.kind = Value::OBJECT;
            v.type = typeid(T);
            v.obj = std::make_shared<T>(x);
            return v;
        }
    }

    // Python to C++; false: not convertible
    template <class T>
    struct Load
    {
        T *p = nullptr;
        bool operator()(const Value &v)
        {
            if (v.kind != Value::OBJECT)
                return false;
            std::type_index want = typeid(T);
            if (!Module::get().types.count(want))
                return false;
            if (v.type == want)
                p = (T *)v.obj.get();
            else
            {
                auto c = Module::get().types.find(v.type);
                if (c == Module::get().types.end() || !c->second->up.count(want))
                    return false;
                p = (T *)c->second->up[want](v.obj.get());
            }
            return true;
        }
        T &get() { return *p; }
    };
    template <>
    struct Load<bool>
    {
        bool x = false;
        bool operator()(const Value &v) { return v.kind == Value::BOOL ? (x = v.b, true) : false; }
        bool &get() { return x; }
    };
    template <class T>
        requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
    struct Load<T>
    {
        T x = 0;
        bool operator()(const Value &v)
        {
            if (v.kind != Value::INT || (long long)(T)v.i != v.i || (std::is_unsigned_v<T> && v.i < 0))
                return false;
            x = (T)v.i;
            return true;
        }
        T &get() { return x; }
    };
    template <class T>
        requires(std::is_floating_point_v<T>)
    struct Load<T>
    {
        T x = 0;
        bool operator()(const Value &v)
        {
            if (v.kind == Value::FLOAT)
                x = (T)v.f;
            else if (v.kind == Value::INT)
                x = (T)v.i;
            else
                return false;
            return true;
        }
        T &get() { return x; }
    };
    template <>
    struct Load<std::string>
    {
        std::string x;
        bool operator()(const Value &v) { return v.kind == Value::STR ? (x = v.s, true) : false; }
        std::string &get() { return x; }
    };
    template <class T>
        requires(IsEigen<T>::value)
    struct Load<T>
    {
        T x;
        bool operator()(const Value &v)
        {
            if (v.kind == Value::FLOAT || v.kind == Value::INT)
            {
                // a number is a zero dimensional array, which is refused
                return false;
            }
            Eigen::MatrixXd a = v.a;
            int dim = v.dim;
            if (v.kind == Value::LIST)
            {
                a.resize(v.list.size(), 1);
                dim = 1;
                for (size_t i = 0; i < v.list.size(); i++)
                {
                    if (v.list[i].kind != Value::FLOAT && v.list[i].kind != Value::INT)
                        return false;
                    a(i, 0) = v.list[i].kind == Value::FLOAT ? v.list[i].f : v.list[i].i;
                }
            }
            else if (v.kind != Value::ARRAY)
                return false;
            if (dim == 1 && IsEigen<T>::rows == 1)
                a.transposeInPlace();
            if ((IsEigen<T>::rows >= 0 && a.rows() != IsEigen<T>::rows) || (IsEigen<T>::cols >= 0 && a.cols() != IsEigen<T>::cols))
                return false;
            x = a;
            return true;
        }
        T &get() { return x; }
    };
    template <class T>
        requires(IsVector<T>::value)
    struct Load<T>
    {
        T x;
        bool operator()(const Value &v)
        {
            if (v.kind != Value::LIST)
                return false;
            x.clear();
            for (auto &e : v.list)
            {
                Load<typename T::value_type> l;
                if (!l(e))
                    return false;
                x.push_back(l.get());
            }
            return true;
        }
        T &get() { return x; }
    };
    template <class R, class... A>
    struct Load<std::function<R(A...)>>
    {
        std::function<R(A...)> x;
        bool operator()(const Value &v)
        {
            if (v.kind == Value::NONE)
            {
                x = nullptr;
                return true;
            }
            if (v.kind != Value::CALLABLE)
                return false;
            x = [f = v.fn](A... a) -> R
            {
                Value r = f(Args{cast(a)...});
                if constexpr (!std::is_void_v<R>)
                {
                    Load<std::decay_t<R>> l;
                    if (!l(r))
                        throw std::runtime_error("Unable to cast Python instance to C++ type");
                    return l.get();
                }
            };
            return true;
        }
        std::function<R(A...)> &get() { return x; }
    };

    template <class T>
    inline arg_v arg::operator=(const T &x) const { return {cast(x)}; }
    template <class X>
    void defaultOf(std::vector<Value> &d, const X &x)
    {
        if constexpr (std::is_same_v<X, arg_v>)
            d.push_back(x.v);
    }
    // the arguments completed with the defaults of the last ones
    inline Args complete(const Args &a, const std::vector<Value> &d, size_t n)
    {
        Args r = a;
        if (r.size() < n && n - r.size() <= d.size())
            r.insert(r.end(), d.end() - (n - r.size()), d.end());
        return r;
    }

    template <class R, class F, class... A>
    bool invoke(F &&f, const Args &given, const std::vector<Value> &defaults, Value &out, std::tuple<A...> *)
    {
        Args v = complete(given, defaults, sizeof...(A));
        if (v.size() != sizeof...(A))
            return false;
        std::tuple<Load<std::decay_t<A>>...> l;
        bool ok = true;
        size_t i = 0;
        std::apply([&](auto &...e)
                   { ((ok = ok && e(v[i++])), ...); }, l);
        if (!ok)
            return false;
        std::apply([&](auto &...e)
                   {
            if constexpr (std::is_void_v<R>)
                f(e.get()...);
            else
                out = cast(f(e.get()...)); },
                   l);
        return true;
    }

    template <class... A>
    struct OverloadCast
    {
        template <class R>
        constexpr auto operator()(R (*f)(A...)) const { return f; }
        template <class R, class C>
        constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
        template <class R, class C>
        constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
    };
    template <class... A>
    static constexpr OverloadCast<A...> overload_cast{};
    static constexpr auto const_ = std::true_type{};

    template <class... A>
    struct Init
    {
    };
    template <class... A>
    Init<A...> init() { return {}; }

    class module_
    {
    public:
        template <class F, class... X>
        module_ &def(const char *, F &&, const X &...) { return *this; }
        template <class X>
        void attr_set(const char *n, const X &x) { Module::get().attributes[n] = cast(x); }
        std::string &doc()
        {
            static std::string s;
            return s;
        }
    };
    using module = module_;

    template <class T, class... Options>
    class class_
    {
    protected:
        std::shared_ptr<Class> c;
        static T *self(Value *v) { return (T *)v->obj.get(); }
        template <class R, class C, class F, class... A>
        void member(const char *n, F f, std::tuple<A...> *tag, const std::vector<Value> &df)
        {
            c->methods[n].push_back({[f, tag, df](Value *v, const Args &a, Value &out)
                                     {
                C *o = static_cast<C *>(self(v));
                return invoke<R>([&](A... x) -> R { return (o->*f)(std::forward<A>(x)...); }, a, df, out, tag); }});
        }
        template <class R, class L, class S, class... A>
        void lambda(const char *n, const L &f, R (L::*)(S, A...) const, const std::vector<Value> &df)
        {
            std::tuple<A...> *tag = nullptr;
            c->methods[n].push_back({[f, tag, df](Value *v, const Args &a, Value &out)
                                     { T *o = self(v);
                return invoke<R>([&](A... x) -> R { return f(*o, std::forward<A>(x)...); }, a, df, out, tag); }});
        }
        template <class B>
        void base()
        {
            if constexpr (std::is_base_of_v<B, T>)
                c->up[typeid(B)] = [](void *p) -> void *
                { return static_cast<B *>((T *)p); };
        }

    public:
        template <class... X>
        class_(module_ &, const char *name, const X &...)
        {
            auto &m = Module::get();
            if (m.types.count(typeid(T)))
                throw std::runtime_error(std::string("generic_type: type \"") + name + "\" is already registered!");
            c = std::make_shared<Class>();
            c->name = name;
            c->type = typeid(T);
            (base<Options>(), ...);
            m.types.emplace(typeid(T), c);
            m.names[name] = c;
        }
        template <class R, class C, class... A, class... X>
        class_ &def(const char *n, R (C::*f)(A...), const X &...x)
        {
            std::vector<Value> df;
            (defaultOf(df, x), ...);
            member<R, C>(n, f, (std::tuple<A...> *)nullptr, df);
            return *this;
        }
        template <class R, class C, class... A, class... X>
        class_ &def(const char *n, R (C::*f)(A...) const, const X &...x)
        {
            std::vector<Value> df;
            (defaultOf(df, x), ...);
            member<R, const C>(n, f, (std::tuple<A...> *)nullptr, df);
            return *this;
        }
        template <class L, class... X>
            requires(std::is_class_v<L>)
        class_ &def(const char *n, const L &f, const X &...x)
        {
            std::vector<Value> df;
            (defaultOf(df, x), ...);
            lambda(n, f, &L::operator(), df);
            return *this;
        }
        template <class R, class S, class... A, class... X>
        class_ &def(const char *n, R (*f)(S, A...), const X &...x)
        {
            std::vector<Value> df;
            (defaultOf(df, x), ...);
            std::tuple<A...> *tag = nullptr;
            c->methods[n].push_back({[f, tag, df](Value *v, const Args &a, Value &out)
                                     { T *o = self(v);
                return invoke<R>([&](A... x) -> R { return f(*o, std::forward<A>(x)...); }, a, df, out, tag); }});
            return *this;
        }
        template <class... A, class... X>
        class_ &def(Init<A...>, const X &...x)
        {
            std::vector<Value> df;
            (defaultOf(df, x), ...);
            std::tuple<A...> *tag = nullptr;
            c->init.push_back({[tag, df](Value *, const Args &a, Value &out)
                               { return invoke<void>([&](A... x)
                                                     {
                out.kind = Value::OBJECT;
                out.type = typeid(T);
                out.obj = std::shared_ptr<T>(new T(x...)); }, a, df, out, tag); }});
            return *this;
        }
        template <class R, class... A, class... X>
        class_ &def_static(const char *n, R (*f)(A...), const X &...x)
        {
            std::vector<Value> df;
            (defaultOf(df, x), ...);
            std::tuple<A...> *tag = nullptr;
            c->methods[n].push_back({[f, tag, df](Value *, const Args &a, Value &out)
                                     { return invoke<R>(f, a, df, out, tag); }});
            return *this;
        }
        template <class L, class... X>
            requires(std::is_class_v<L>)
        class_ &def_static(const char *n, const L &f, const X &...x)
        {
            return def_static(n, +f, x...);
        }
        template <class F, class... X>
        class_ &def_property_readonly(const char *n, const F &f, const X &...)
        {
            c->get[n] = [f](void *o)
            { return cast(std::invoke(f, *(T *)o)); };
            return *this;
        }
        template <class F, class G, class... X>
        class_ &def_property(const char *n, const F &f, const G &g, const X &...x)
        {
            using D = std::decay_t<decltype(std::invoke(f, *(T *)nullptr))>;
            c->set[n] = [g](void *o, const Value &v)
            {
                Load<D> l;
                if (!l(v))
                    return false;
                std::invoke(g, *(T *)o, l.get());
                return true;
            };
            return def_property_readonly(n, f, x...);
        }
        template <class C, class D, class... X>
        class_ &def_readonly(const char *n, const D C::*p, const X &...)
        {
            c->get[n] = [p](void *o)
            { return cast(static_cast<C *>((T *)o)->*p); };
            return *this;
        }
        template <class C, class D, class... X>
        class_ &def_readwrite(const char *n, D C::*p, const X &...)
        {
            c->get[n] = [p](void *o)
            { return cast(static_cast<C *>((T *)o)->*p); };
            c->set[n] = [p](void *o, const Value &v)
            {
                Load<D> l;
                if (!l(v))
                    return false;
                static_cast<C *>((T *)o)->*p = l.get();
                return true;
            };
            return *this;
        }
    };

    template <class E>
    class enum_ : public class_<E>
    {
    public:
        template <class... X>
        enum_(module_ &m, const char *name, const X &...x) : class_<E>(m, name)
        {
            this->c->equal = [](const void *a, const void *b)
            { return *(const E *)a == *(const E *)b; };
        }
        enum_ &value(const char *n, E e, const char * = nullptr)
        {
            this->c->values[n] = cast(e);
            return *this;
        }
        enum_ &export_values()
        {
            for (auto &v : this->c->values)
                Module::get().attributes[v.first] = v.second;
            return *this;
        }
    };

    // what a script does
    inline Value construct(const std::string &cls, const Args &a)
    {
        auto it = Module::get().names.find(cls);
        if (it == Module::get().names.end())
            throw AttributeError("module has no attribute " + cls);
        Value out;
        for (auto &o : it->second->init)
            if (o.call(nullptr, a, out))
                return out;
        throw TypeError(cls + "(): incompatible constructor arguments");
    }
    inline Class &typeOf(const Value &v)
    {
        auto it = Module::get().types.find(v.type);
        if (v.kind != Value::OBJECT || it == Module::get().types.end())
            throw TypeError("not an object");
        return *it->second;
    }
    inline bool equal(const Value &a, const Value &b)
    {
        return a.kind == Value::OBJECT && b.kind == Value::OBJECT && a.type == b.type && typeOf(a).equal && typeOf(a).equal(a.obj.get(), b.obj.get());
    }
    inline bool has(const std::string &cls, const std::string &n)
    {
        auto it = Module::get().names.find(cls);
        return it != Module::get().names.end() && it->second->methods.count(n);
    }
    inline Value call(Value &self, const std::string &n, const Args &a)
    {
        Class &c = typeOf(self);
        auto it = c.methods.find(n);
        if (it == c.methods.end())
            throw AttributeError(c.name + " object has no attribute " + n);
        Value out;
        for (auto &o : it->second)
            if (o.call(&self, a, out))
                return out;
        throw TypeError(n + "(): incompatible function arguments");
    }
    inline Value callStatic(const std::string &cls, const std::string &n, const Args &a)
    {
        Class &c = *Module::get().names.at(cls);
        Value out;
        for (auto &o : c.methods.at(n))
            if (o.call(nullptr, a, out))
                return out;
        throw TypeError(n + "(): incompatible function arguments");
    }
    inline Value getattr(const Value &self, const std::string &n)
    {
        Class &c = typeOf(self);
        auto it = c.get.find(n);
        if (it == c.get.end())
            throw AttributeError(c.name + " object has no attribute " + n);
        return it->second(self.obj.get());
    }
    inline void setattr(Value &self, const std::string &n, const Value &v)
    {
        Class &c = typeOf(self);
        auto it = c.set.find(n);
        if (it == c.set.end())
            throw AttributeError(c.name + " object has no attribute " + n);
        if (!it->second(self.obj.get(), v))
            throw TypeError(n + ": incompatible value");
    }
    inline Value attribute(const std::string &cls, const std::string &n)
    {
        auto it = Module::get().names.find(cls);
        if (it == Module::get().names.end() || !it->second->values.count(n))
            throw AttributeError(cls + " has no attribute " + n);
        return it->second->values[n];
    }
}
namespace py_stub
{
    void init(); // registers the module
}
#define PYBIND11_MODULE(name, variable)                         \
    static void pybind11_init_##name(::pybind11::module_ &);    \
    void py_stub::init()                                        \
    {                                                           \
        ::pybind11::module_ m;                                  \
        pybind11_init_##name(m);                                \
    }                                                           \
    void pybind11_init_##name(::pybind11::module_ &variable)
