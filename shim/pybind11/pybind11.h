// What the Python interface needs of pybind11, without Python: a module whose
// classes and functions are called by name, with arguments converted from values
// as a Python program would pass them, missing ones from their defaults.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

namespace pybind11
{
    struct builtin_exception : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };
    struct value_error : builtin_exception
    {
        using builtin_exception::builtin_exception;
    };
    struct key_error : builtin_exception
    {
        using builtin_exception::builtin_exception;
    };
    struct index_error : builtin_exception
    {
        using builtin_exception::builtin_exception;
    };
    struct type_error : builtin_exception
    {
        using builtin_exception::builtin_exception;
    };
    // raised by Python code which was called
    struct error_already_set : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    struct Value
    {
        enum Kind
        {
            None,
            Bool,
            Int,
            Float,
            Str,
            List,
            Dict,
            Function
        } kind = None;
        long long i = 0;
        double d = 0;
        std::string s;
        std::vector<Value> list;
        std::map<std::string, Value> dict;
        std::function<Value(const std::vector<Value> &)> f;

        Value() = default;
        Value(std::nullopt_t)
        {
        }
        Value(bool b) : kind(Bool), i(b)
        {
        }
        Value(int x) : kind(Int), i(x)
        {
        }
        Value(long long x) : kind(Int), i(x)
        {
        }
        Value(unsigned long long x) : kind(Int), i((long long)x)
        {
        }
        Value(double x) : kind(Float), d(x)
        {
        }
        Value(const char * x) : kind(Str), s(x)
        {
        }
        Value(std::string x) : kind(Str), s(std::move(x))
        {
        }
        template <typename T>
        Value(const std::vector<T> & xs) : kind(List), list(xs.begin(), xs.end())
        {
        }
        explicit Value(std::function<Value(const std::vector<Value> &)> g) : kind(Function), f(std::move(g))
        {
        }
    };

    namespace detail
    {
        template <typename T>
        struct is_optional : std::false_type
        {
        };
        template <typename T>
        struct is_optional<std::optional<T>> : std::true_type
        {
        };
        template <typename T>
        struct is_vector : std::false_type
        {
        };
        template <typename T>
        struct is_vector<std::vector<T>> : std::true_type
        {
        };
        template <typename T>
        struct is_map : std::false_type
        {
        };
        template <typename T>
        struct is_map<std::unordered_map<std::string, T>> : std::true_type
        {
        };
        template <typename T>
        struct is_map<std::map<std::string, T>> : std::true_type
        {
        };
        template <typename T>
        struct function_of
        {
            static constexpr bool is = false;
        };
        template <typename R, typename... A>
        struct function_of<std::function<R(A...)>>
        {
            static constexpr bool is = true;
            static std::function<R(A...)> make(std::function<Value(const std::vector<Value> &)>);
        };

        template <typename T>
        Value to_value(const T & x)
        {
            if constexpr (is_optional<T>::value)
                return x ? to_value(*x) : Value{};
            else if constexpr (is_map<T>::value) {
                Value v;
                v.kind = Value::Dict;
                for (auto & [k, y] : x)
                    v.dict.emplace(k, to_value(y));
                return v;
            }
            else if constexpr (is_vector<T>::value) {
                Value v;
                v.kind = Value::List;
                for (const auto & y : x)
                    v.list.push_back(to_value(y));
                return v;
            }
            else if constexpr (std::is_same_v<T, bool>)
                return Value{x};
            else if constexpr (std::is_integral_v<T>)
                return Value{(long long)x};
            else if constexpr (std::is_floating_point_v<T>)
                return Value{(double)x};
            else
                return Value{x};
        }

        template <typename T>
        T from_value(const Value & v)
        {
            if constexpr (is_optional<T>::value) {
                if (v.kind == Value::None)
                    return std::nullopt;
                return from_value<typename T::value_type>(v);
            }
            else if constexpr (is_vector<T>::value) {
                if (v.kind != Value::List)
                    throw type_error{"a list was expected"};
                T r;
                for (auto & x : v.list)
                    r.push_back(from_value<typename T::value_type>(x));
                return r;
            }
            else if constexpr (function_of<T>::is) {
                if (v.kind != Value::Function)
                    throw type_error{"a function was expected"};
                return function_of<T>::make(v.f);
            }
            else if constexpr (std::is_same_v<T, bool>) {
                if (v.kind != Value::Bool && v.kind != Value::Int)
                    throw type_error{"a bool was expected"};
                return v.i != 0;
            }
            else if constexpr (std::is_integral_v<T>) {
                if ((v.kind != Value::Int && v.kind != Value::Bool) || (std::is_unsigned_v<T> && v.i < 0))
                    throw type_error{"an int was expected"};
                return (T)v.i;
            }
            else if constexpr (std::is_floating_point_v<T>) {
                if (v.kind == Value::Int || v.kind == Value::Bool)
                    return (T)v.i;
                if (v.kind != Value::Float)
                    throw type_error{"a float was expected"};
                return (T)v.d;
            }
            else {
                static_assert(std::is_same_v<T, std::string>);
                if (v.kind != Value::Str)
                    throw type_error{"a str was expected"};
                return v.s;
            }
        }

        template <typename R, typename... A>
        std::function<R(A...)> function_of<std::function<R(A...)>>::make(std::function<Value(const std::vector<Value> &)> f)
        {
            return [f](A... a) -> R {
                auto r = f(std::vector<Value>{to_value(a)...});
                if constexpr (! std::is_void_v<R>)
                    return from_value<R>(r);
            };
        }
    }

    struct arg
    {
        std::string name;
        bool has = false;
        Value def;
        explicit arg(const char * n) : name(n)
        {
        }
        template <typename T>
        arg operator=(T && x) const
        {
            arg r{name.c_str()};
            r.has = true;
            r.def = Value(std::forward<T>(x));
            return r;
        }
        arg noconvert() const
        {
            return *this;
        }
        arg none(bool = true) const
        {
            return *this;
        }
    };
    template <typename... A>
    struct init
    {
    };
    template <typename... A>
    struct call_guard
    {
    };
    struct gil_scoped_release
    {
    };
    struct gil_scoped_acquire
    {
    };

    using Args = std::vector<Value>;
    using Named = std::map<std::string, Value>;
    struct Class
    {
        std::function<std::shared_ptr<void>()> make;
        std::map<std::string, std::function<Value(void *, const Args &, const Named &)>> methods;
    };
    struct module_
    {
        std::string text;
        std::map<std::string, Class> classes;
        std::string & doc()
        {
            return text;
        }
    };

    template <typename T>
    class class_
    {
        Class & k;

        template <typename F, typename R, typename... A>
        void add(const char * name, F f, const std::vector<arg> & names)
        {
            k.methods[name] = [f, names](void * self, const Args & given, const Named & named) -> Value {
                constexpr size_t n = sizeof...(A);
                if (! names.empty() && names.size() != n)
                    throw type_error{"the names of the arguments do not match them"};
                if (given.size() > n)
                    throw type_error{"too many arguments"};
                Args all = given;
                size_t used = 0;
                for (size_t i = 0; i < n; ++i) {
                    auto m = names.empty() ? named.end() : named.find(names[i].name);
                    if (m != named.end()) {
                        if (i < given.size())
                            throw type_error{"an argument given twice"};
                        ++used;
                        all.push_back(m->second);
                    }
                    else if (i >= given.size()) {
                        if (names.empty() || ! names[i].has)
                            throw type_error{"too few arguments"};
                        all.push_back(names[i].def);
                    }
                }
                if (used != named.size())
                    throw type_error{"an unknown argument"};
                return call<F, R, A...>(f, (T *)self, all, std::index_sequence_for<A...>{});
            };
        }
        template <typename F, typename R, typename... A, size_t... I>
        static Value call(F f, T * self, const Args & all, std::index_sequence<I...>)
        {
            std::tuple<std::decay_t<A>...> a{detail::from_value<std::decay_t<A>>(all[I])...};
            if constexpr (std::is_void_v<R>) {
                std::invoke(f, *self, std::get<I>(a)...);
                return Value{};
            }
            else
                return detail::to_value<std::decay_t<R>>(std::invoke(f, *self, std::get<I>(a)...));
        }
        template <typename X>
        static void keep(std::vector<arg> & names, const X & x)
        {
            if constexpr (std::is_same_v<X, arg>)
                names.push_back(x);
        }

    public:
        template <typename... E>
        class_(module_ & m, const char * name, const E &...) : k(m.classes[name])
        {
        }
        template <typename... A>
        class_ & def(init<A...>)
        {
            static_assert(sizeof...(A) == 0);
            k.make = [] { return std::shared_ptr<void>(std::make_shared<T>()); };
            return *this;
        }
        template <typename C, typename R, typename... A, typename... E>
        class_ & def(const char * name, R (C::*f)(A...), const E &... extra)
        {
            std::vector<arg> names;
            (keep(names, extra), ...);
            add<R (C::*)(A...), R, A...>(name, f, names);
            return *this;
        }
        template <typename C, typename R, typename... A, typename... E>
        class_ & def(const char * name, R (C::*f)(A...) const, const E &... extra)
        {
            std::vector<arg> names;
            (keep(names, extra), ...);
            add<R (C::*)(A...) const, R, A...>(name, f, names);
            return *this;
        }
        template <typename R, typename... A, typename... E>
        class_ & def(const char * name, R (*f)(T &, A...), const E &... extra)
        {
            std::vector<arg> names;
            (keep(names, extra), ...);
            add<R (*)(T &, A...), R, A...>(name, f, names);
            return *this;
        }
        template <typename L, typename... E>
            requires std::is_class_v<L>
        class_ & def(const char * name, L f, const E &... extra)
        {
            return lambda(name, std::move(f), &L::operator(), extra...);
        }

    private:
        template <typename L, typename R, typename S, typename... A, typename... E>
        class_ & lambda(const char * name, L f, R (L::*)(S, A...) const, const E &... extra)
        {
            std::vector<arg> names;
            (keep(names, extra), ...);
            add<L, R, A...>(name, std::move(f), names);
            return *this;
        }
    };
}

#define PYBIND11_MODULE(name, variable)               \
    static void gsim_fill_##name(pybind11::module_ &); \
    pybind11::module_ & gsim_module_##name()           \
    {                                                  \
        static pybind11::module_ m;                    \
        static bool filled = (gsim_fill_##name(m), true); \
        (void)filled;                                  \
        return m;                                      \
    }                                                  \
    static void gsim_fill_##name([[maybe_unused]] pybind11::module_ & variable)
