// In-process stand-in for sdbusplus / phosphor-dbus-interfaces, used only by the
// verification simulator.  It models a D-Bus system bus: typed messages, method
// calls to simulated services and to the objects the daemon itself publishes,
// match rules and signals.  Behaviour follows sdbusplus: type mismatches on read
// throw, a variant read with no matching alternative is default constructed.
#pragma once
#include <systemd/sd-bus.h>

#include <algorithm>
#include <array>
#include <cerrno>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace fakebus
{
struct Val
{
    std::string sig;  // full signature of this value
    bool b = false;
    int64_t i = 0;    // all signed integers
    uint64_t u = 0;   // all unsigned integers
    double d = 0;
    std::string s;
    std::vector<Val> c; // array elements / struct members / dict entry / variant content
};

struct MsgData
{
    std::string dest, path, iface, member, sender, type;
    std::vector<Val> args;
    size_t pos = 0;
    bool error = false;
};
} // namespace fakebus

struct sd_bus_message
{
    std::shared_ptr<fakebus::MsgData> data;
};

namespace sdbusplus
{
struct exception_base : public std::exception
{};

namespace exception
{
struct exception : public std::exception
{
    virtual const char* name() const noexcept = 0;
    virtual const char* description() const noexcept = 0;
    const char* what() const noexcept override = 0;
    virtual int get_errno() const noexcept = 0;
};
class SdBusError final : public exception
{
  public:
    SdBusError(int e, const char* prefix) :
        err(e), nm("org.freedesktop.DBus.Error.Failed"), desc(prefix),
        full(nm + ": " + desc)
    {}
    SdBusError(int e, std::string n, std::string d) :
        err(e), nm(std::move(n)), desc(std::move(d)), full(nm + ": " + desc)
    {}
    const char* name() const noexcept override
    {
        return nm.c_str();
    }
    const char* description() const noexcept override
    {
        return desc.c_str();
    }
    const char* what() const noexcept override
    {
        return full.c_str();
    }
    int get_errno() const noexcept override
    {
        return err;
    }

  private:
    int err;
    std::string nm, desc, full;
};
struct InvalidEnumString final : public exception
{
    const char* name() const noexcept override
    {
        return "xyz.openbmc_project.sdbusplus.Error.InvalidEnumString";
    }
    const char* description() const noexcept override
    {
        return "invalid enum";
    }
    const char* what() const noexcept override
    {
        return "invalid enum";
    }
    int get_errno() const noexcept override
    {
        return EINVAL;
    }
};
} // namespace exception
using exception_t = exception::exception;

namespace message
{
namespace details
{
struct string_wrapper
{
    std::string str;
    string_wrapper() = default;
    string_wrapper(const string_wrapper&) = default;
    string_wrapper& operator=(const string_wrapper&) = default;
    string_wrapper(string_wrapper&&) = default;
    string_wrapper& operator=(string_wrapper&&) = default;
    string_wrapper(const std::string& s) : str(s) {}
    string_wrapper(std::string&& s) : str(std::move(s)) {}
    string_wrapper(const char* s) : str(s) {}
    operator const std::string&() const&
    {
        return str;
    }
    operator std::string&&() &&
    {
        return std::move(str);
    }
    bool operator==(const string_wrapper& r) const
    {
        return str == r.str;
    }
    bool operator<(const string_wrapper& r) const
    {
        return str < r.str;
    }
    bool operator==(const std::string& r) const
    {
        return str == r;
    }
};
struct string_path_wrapper : string_wrapper
{
    using string_wrapper::string_wrapper;
    std::string filename() const
    {
        auto p = str.rfind('/');
        return p == std::string::npos ? std::string() : str.substr(p + 1);
    }
    string_path_wrapper parent_path() const
    {
        auto p = str.rfind('/');
        if (p == std::string::npos || p == 0)
        {
            return string_path_wrapper("/");
        }
        return string_path_wrapper(str.substr(0, p));
    }
    string_path_wrapper operator/(const std::string& x) const
    {
        return string_path_wrapper(str == "/" ? str + x : str + "/" + x);
    }
};
} // namespace details
using object_path = details::string_path_wrapper;
struct signature : details::string_wrapper
{
    using details::string_wrapper::string_wrapper;
};
struct unix_fd
{
    int fd = -1;
};
} // namespace message
using object_path = message::object_path;
} // namespace sdbusplus

namespace std
{
template <>
struct hash<sdbusplus::message::object_path>
{
    size_t operator()(const sdbusplus::message::object_path& p) const
    {
        return std::hash<std::string>()(p.str);
    }
};
} // namespace std

namespace fakebus
{
[[noreturn]] inline void typeError(const char* what)
{
    throw sdbusplus::exception::SdBusError(EINVAL, what);
}

template <typename T, typename = void>
struct Codec; // sig(), to(), from()

template <typename T>
inline std::string sigOf()
{
    return Codec<std::remove_cvref_t<T>>::sig();
}

#define FB_SIGNED(T, S)                                                        \
    template <>                                                                \
    struct Codec<T>                                                            \
    {                                                                          \
        static std::string sig()                                               \
        {                                                                      \
            return S;                                                          \
        }                                                                      \
        static Val to(const T& v)                                              \
        {                                                                      \
            Val r;                                                             \
            r.sig = S;                                                         \
            r.i = v;                                                           \
            return r;                                                          \
        }                                                                      \
        static void from(const Val& v, T& o)                                   \
        {                                                                      \
            if (v.sig != S)                                                    \
                typeError("sd_bus_message_read");                              \
            o = static_cast<T>(v.i);                                           \
        }                                                                      \
    };
#define FB_UNSIGNED(T, S)                                                      \
    template <>                                                                \
    struct Codec<T>                                                            \
    {                                                                          \
        static std::string sig()                                               \
        {                                                                      \
            return S;                                                          \
        }                                                                      \
        static Val to(const T& v)                                              \
        {                                                                      \
            Val r;                                                             \
            r.sig = S;                                                         \
            r.u = v;                                                           \
            return r;                                                          \
        }                                                                      \
        static void from(const Val& v, T& o)                                   \
        {                                                                      \
            if (v.sig != S)                                                    \
                typeError("sd_bus_message_read");                              \
            o = static_cast<T>(v.u);                                           \
        }                                                                      \
    };
FB_SIGNED(int16_t, "n")
FB_SIGNED(int32_t, "i")
FB_SIGNED(int64_t, "x")
FB_SIGNED(long long, "x")
FB_UNSIGNED(uint8_t, "y")
FB_UNSIGNED(uint16_t, "q")
FB_UNSIGNED(uint32_t, "u")
FB_UNSIGNED(uint64_t, "t")
FB_UNSIGNED(unsigned long long, "t")

template <>
struct Codec<bool>
{
    static std::string sig()
    {
        return "b";
    }
    static Val to(const bool& v)
    {
        Val r;
        r.sig = "b";
        r.b = v;
        return r;
    }
    static void from(const Val& v, bool& o)
    {
        if (v.sig != "b")
            typeError("sd_bus_message_read");
        o = v.b;
    }
};
template <>
struct Codec<double>
{
    static std::string sig()
    {
        return "d";
    }
    static Val to(const double& v)
    {
        Val r;
        r.sig = "d";
        r.d = v;
        return r;
    }
    static void from(const Val& v, double& o)
    {
        if (v.sig != "d")
            typeError("sd_bus_message_read");
        o = v.d;
    }
};
template <>
struct Codec<std::string>
{
    static std::string sig()
    {
        return "s";
    }
    static Val to(const std::string& v)
    {
        Val r;
        r.sig = "s";
        r.s = v;
        return r;
    }
    static void from(const Val& v, std::string& o)
    {
        if (v.sig != "s")
            typeError("sd_bus_message_read");
        o = v.s;
    }
};
template <>
struct Codec<const char*>
{
    static std::string sig()
    {
        return "s";
    }
    static Val to(const char* v)
    {
        Val r;
        r.sig = "s";
        r.s = v ? v : "";
        return r;
    }
};
template <>
struct Codec<char*> : Codec<const char*>
{};
template <>
struct Codec<std::string_view>
{
    static std::string sig()
    {
        return "s";
    }
    static Val to(std::string_view v)
    {
        Val r;
        r.sig = "s";
        r.s = std::string(v);
        return r;
    }
};
template <size_t N>
struct Codec<char[N]> : Codec<const char*>
{};
template <>
struct Codec<sdbusplus::message::object_path>
{
    static std::string sig()
    {
        return "o";
    }
    static Val to(const sdbusplus::message::object_path& v)
    {
        Val r;
        r.sig = "o";
        r.s = v.str;
        return r;
    }
    static void from(const Val& v, sdbusplus::message::object_path& o)
    {
        if (v.sig != "o")
            typeError("sd_bus_message_read");
        o.str = v.s;
    }
};

template <typename C, typename E>
struct SeqCodec
{
    static std::string sig()
    {
        return "a" + sigOf<E>();
    }
    static Val to(const C& v)
    {
        Val r;
        r.sig = sig();
        for (const auto& e : v)
            r.c.push_back(Codec<std::remove_cvref_t<E>>::to(e));
        return r;
    }
};
template <typename E, typename A>
struct Codec<std::vector<E, A>> : SeqCodec<std::vector<E, A>, E>
{
    static void from(const Val& v, std::vector<E, A>& o)
    {
        if (v.sig.empty() || v.sig[0] != 'a')
            typeError("sd_bus_message_enter_container");
        if (v.sig != "a" + sigOf<E>())
            typeError("sd_bus_message_enter_container");
        o.clear();
        for (const auto& e : v.c)
        {
            E x{};
            Codec<E>::from(e, x);
            o.push_back(std::move(x));
        }
    }
};
template <typename E, size_t N>
struct Codec<std::array<E, N>> : SeqCodec<std::array<E, N>, E>
{};
template <typename E, size_t N>
struct Codec<std::span<E, N>> : SeqCodec<std::span<E, N>, E>
{};
template <typename E>
struct Codec<std::set<E>> : SeqCodec<std::set<E>, E>
{};

template <typename M, typename K, typename V>
struct MapCodec
{
    static std::string sig()
    {
        return "a{" + sigOf<K>() + sigOf<V>() + "}";
    }
    static Val to(const M& m)
    {
        Val r;
        r.sig = sig();
        for (const auto& [k, v] : m)
        {
            Val e;
            e.sig = "{" + sigOf<K>() + sigOf<V>() + "}";
            e.c.push_back(Codec<std::remove_cvref_t<K>>::to(k));
            e.c.push_back(Codec<std::remove_cvref_t<V>>::to(v));
            r.c.push_back(std::move(e));
        }
        return r;
    }
    static void from(const Val& v, M& m)
    {
        if (v.sig != sig())
            typeError("sd_bus_message_enter_container");
        for (const auto& e : v.c)
        {
            std::remove_cvref_t<K> k{};
            std::remove_cvref_t<V> x{};
            Codec<std::remove_cvref_t<K>>::from(e.c.at(0), k);
            Codec<std::remove_cvref_t<V>>::from(e.c.at(1), x);
            m.emplace(std::move(k), std::move(x));
        }
    }
};
// anything map-like (std::map, std::unordered_map, boost flat_map)
template <typename M>
struct Codec<M, std::void_t<typename M::key_type, typename M::mapped_type>> :
    MapCodec<M, typename M::key_type, typename M::mapped_type>
{};

template <typename A, typename B>
struct Codec<std::pair<A, B>>
{
    static std::string sig()
    {
        return "(" + sigOf<A>() + sigOf<B>() + ")";
    }
    static Val to(const std::pair<A, B>& v)
    {
        Val r;
        r.sig = sig();
        r.c.push_back(Codec<A>::to(v.first));
        r.c.push_back(Codec<B>::to(v.second));
        return r;
    }
    static void from(const Val& v, std::pair<A, B>& o)
    {
        if (v.sig != sig())
            typeError("sd_bus_message_enter_container");
        Codec<A>::from(v.c.at(0), o.first);
        Codec<B>::from(v.c.at(1), o.second);
    }
};
template <typename... T>
struct Codec<std::tuple<T...>>
{
    static std::string sig()
    {
        return "(" + (sigOf<T>() + ... + std::string()) + ")";
    }
    static Val to(const std::tuple<T...>& v)
    {
        Val r;
        r.sig = sig();
        std::apply(
            [&](const auto&... e) {
                (r.c.push_back(Codec<std::remove_cvref_t<decltype(e)>>::to(e)),
                 ...);
            },
            v);
        return r;
    }
    static void from(const Val& v, std::tuple<T...>& o)
    {
        if (v.sig != sig())
            typeError("sd_bus_message_enter_container");
        size_t i = 0;
        std::apply(
            [&](auto&... e) {
                (Codec<std::remove_cvref_t<decltype(e)>>::from(v.c.at(i++), e),
                 ...);
            },
            o);
    }
};
template <typename... T>
struct Codec<std::variant<T...>>
{
    static std::string sig()
    {
        return "v";
    }
    static Val to(const std::variant<T...>& v)
    {
        Val r;
        r.sig = "v";
        std::visit(
            [&](const auto& e) {
                r.c.push_back(Codec<std::remove_cvref_t<decltype(e)>>::to(e));
            },
            v);
        return r;
    }
    template <typename X>
    static bool tryOne(const Val& v, std::variant<T...>& o)
    {
        if (sigOf<X>() != v.sig)
            return false;
        X x{};
        Codec<X>::from(v, x);
        o = std::move(x);
        return true;
    }
    static void from(const Val& v, std::variant<T...>& o)
    {
        if (v.sig != "v")
            typeError("sd_bus_message_verify_type");
        bool ok = (tryOne<T>(v.c.at(0), o) || ...);
        if (!ok)
            o = std::variant<T...>{};
    }
};

// ---- hooks implemented in sim.cpp ----
struct BusImpl
{
    std::string id;
    std::set<std::string> names;
};
std::shared_ptr<BusImpl> makeBus(const char* kind);
void requestName(BusImpl& b, const std::string& name);
std::shared_ptr<MsgData> doCall(BusImpl& b, const std::shared_ptr<MsgData>& m,
                                bool wantReply);

struct MatchEntry
{
    std::map<std::string, std::string> rule;
    std::function<void(const std::shared_ptr<MsgData>&)> fn;
    uint64_t seq = 0;
};
MatchEntry* addMatch(BusImpl& b, const std::string& rule,
                     std::function<void(const std::shared_ptr<MsgData>&)> fn);
void removeMatch(MatchEntry* e);

// One interface implemented by the daemon on some object path
class IfaceBase
{
  public:
    IfaceBase(std::shared_ptr<BusImpl> bus, const char* path,
              const char* iface);
    IfaceBase(const IfaceBase&) = delete;
    IfaceBase& operator=(const IfaceBase&) = delete;
    virtual ~IfaceBase();
    virtual std::vector<std::string> fbNames() const = 0;
    virtual Val fbGet(const std::string& name) const = 0;
    virtual void fbSet(const std::string& name, const Val& v) = 0;
    void fbChanged(const std::string& name);
    void fbAdded();
    std::shared_ptr<BusImpl> fbBus;
    std::string fbPath, fbIface;
    bool fbEmitted = false;
};
void attachIo(void* io);
void managerCreated(BusImpl& b, const std::string& path);
} // namespace fakebus

namespace sdbusplus
{
namespace bus
{
struct bus;
}
namespace message
{
class message
{
  public:
    message() : d(std::make_shared<fakebus::MsgData>()) {}
    explicit message(std::shared_ptr<fakebus::MsgData> m) : d(std::move(m)) {}
    explicit message(sd_bus_message* m) :
        d(m ? m->data : std::make_shared<fakebus::MsgData>())
    {}
    template <typename... A>
    void append(A&&... a)
    {
        (d->args.push_back(fakebus::Codec<Decay<A>>::to(a)), ...);
    }
    template <typename... A>
    void read(A&... a)
    {
        (readOne(a), ...);
    }
    template <typename A, typename... R>
    auto unpack()
    {
        if constexpr (sizeof...(R) == 0)
        {
            A a{};
            read(a);
            return a;
        }
        else
        {
            std::tuple<A, R...> t{};
            std::apply([&](auto&... e) { (readOne(e), ...); }, t);
            return t;
        }
    }
    const char* get_member() const
    {
        return d->member.c_str();
    }
    const char* get_sender() const
    {
        return d->sender.c_str();
    }
    const char* get_path() const
    {
        return d->path.c_str();
    }
    const char* get_interface() const
    {
        return d->iface.c_str();
    }
    const char* get_destination() const
    {
        return d->dest.c_str();
    }
    bool is_method_error() const
    {
        return d->error;
    }
    int get_errno() const
    {
        return d->error ? EINVAL : 0;
    }
    explicit operator bool() const
    {
        return d != nullptr;
    }
    std::shared_ptr<fakebus::MsgData> d;

  private:
    template <typename A>
    using Decay = std::conditional_t<
        std::is_array_v<std::remove_reference_t<A>>, const char*,
        std::remove_cvref_t<A>>;
    template <typename A>
    void readOne(A& a)
    {
        if (d->pos >= d->args.size())
            fakebus::typeError("sd_bus_message_read: no more data");
        const auto& v = d->args[d->pos];
        fakebus::Codec<A>::from(v, a);
        ++d->pos;
    }
};
} // namespace message
using message_t = message::message;

namespace bus
{
struct bus
{
    bus() : impl(fakebus::makeBus("default")) {}
    explicit bus(std::shared_ptr<fakebus::BusImpl> i) : impl(std::move(i)) {}
    explicit bus(sd_bus*) : impl(fakebus::makeBus("raw")) {}
    bus(bus&&) = default;
    bus& operator=(bus&&) = default;
    bus(const bus&) = delete;
    bus& operator=(const bus&) = delete;
    virtual ~bus() = default;

    message_t new_method_call(const char* dest, const char* path,
                              const char* iface, const char* member)
    {
        message_t m;
        m.d->type = "method_call";
        m.d->dest = dest ? dest : "";
        m.d->path = path ? path : "";
        m.d->iface = iface ? iface : "";
        m.d->member = member ? member : "";
        return m;
    }
    message_t new_method_call(const std::string& dest, const std::string& path,
                              const std::string& iface,
                              const std::string& member)
    {
        return new_method_call(dest.c_str(), path.c_str(), iface.c_str(),
                               member.c_str());
    }
    template <typename T = uint64_t>
    message_t call(message_t& m, T = {})
    {
        return message_t(fakebus::doCall(*impl, m.d, true));
    }
    message_t call(message_t&& m)
    {
        return message_t(fakebus::doCall(*impl, m.d, true));
    }
    template <typename T = uint64_t>
    void call_noreply(message_t& m, T = {})
    {
        fakebus::doCall(*impl, m.d, false);
    }
    void request_name(const char* n)
    {
        fakebus::requestName(*impl, n);
    }
    void emit_object_added(const char*) {}
    void emit_object_removed(const char*) {}
    std::string get_unique_name()
    {
        return ":1." + impl->id;
    }
    std::shared_ptr<fakebus::BusImpl> impl;
};
inline bus new_default()
{
    return bus(fakebus::makeBus("default"));
}
inline bus new_system()
{
    return bus(fakebus::makeBus("system"));
}
inline bus new_bus()
{
    return bus(fakebus::makeBus("bus"));
}
inline bus new_default_system()
{
    return bus(fakebus::makeBus("default_system"));
}

namespace match
{
namespace rules
{
namespace type
{
inline std::string signal()
{
    return "type='signal',";
}
} // namespace type
inline std::string path(const std::string& p)
{
    return "path='" + p + "',";
}
inline std::string member(const std::string& p)
{
    return "member='" + p + "',";
}
inline std::string interface(const std::string& p)
{
    return "interface='" + p + "',";
}
inline std::string sender(const std::string& p)
{
    return "sender='" + p + "',";
}
inline std::string path_namespace(const std::string& p)
{
    return "path_namespace='" + p + "',";
}
inline std::string arg0namespace(const std::string& p)
{
    return "arg0namespace='" + p + "',";
}
inline std::string argN(size_t n, const std::string& p)
{
    return "arg" + std::to_string(n) + "='" + p + "',";
}
inline std::string argNpath(size_t n, const std::string& p)
{
    return "arg" + std::to_string(n) + "path='" + p + "',";
}
inline std::string propertiesChanged(const std::string& p, const std::string& i)
{
    return type::signal() + path(p) + member("PropertiesChanged") +
           interface("org.freedesktop.DBus.Properties") + argN(0, i);
}
inline std::string propertiesChangedNamespace(const std::string& p,
                                              const std::string& i)
{
    return type::signal() + path_namespace(p) + member("PropertiesChanged") +
           interface("org.freedesktop.DBus.Properties") + arg0namespace(i);
}
inline std::string interfacesAdded(const std::string& p = "/")
{
    return type::signal() + interface("org.freedesktop.DBus.ObjectManager") +
           member("InterfacesAdded") + path(p);
}
inline std::string interfacesRemoved(const std::string& p = "/")
{
    return type::signal() + interface("org.freedesktop.DBus.ObjectManager") +
           member("InterfacesRemoved") + path(p);
}
} // namespace rules

class match
{
  public:
    match(bus& b, const char* rule, sd_bus_message_handler_t h,
          void* ctx = nullptr) : match(b, std::string(rule), h, ctx)
    {}
    match(bus& b, const std::string& rule, sd_bus_message_handler_t h,
          void* ctx = nullptr)
    {
        e = fakebus::addMatch(
            *b.impl, rule,
            [h, ctx](const std::shared_ptr<fakebus::MsgData>& d) {
                sd_bus_message m{d};
                h(&m, ctx, nullptr);
            });
    }
    match(bus& b, const std::string& rule,
          std::function<void(message_t&)> fn)
    {
        e = fakebus::addMatch(*b.impl, rule,
                              [fn](const std::shared_ptr<fakebus::MsgData>& d) {
                                  message_t m(d);
                                  fn(m);
                              });
    }
    match(const match&) = delete;
    match& operator=(const match&) = delete;
    match(match&& o) noexcept : e(o.e)
    {
        o.e = nullptr;
    }
    match& operator=(match&& o) noexcept
    {
        std::swap(e, o.e);
        return *this;
    }
    ~match()
    {
        if (e)
            fakebus::removeMatch(e);
    }

  private:
    fakebus::MatchEntry* e = nullptr;
};
} // namespace match
using match_t = match::match;
} // namespace bus
using bus_t = bus::bus;
using match = bus::match::match;
using match_t = bus::match::match;
namespace match_rules = bus::match::rules;

namespace server
{
namespace manager
{
class manager
{
  public:
    manager(bus_t& b, const char* path)
    {
        fakebus::managerCreated(*b.impl, path);
    }
};
} // namespace manager
using manager_t = manager::manager;

namespace object
{
template <typename... T>
class object : public T...
{
  public:
    enum class action
    {
        emit_object_added,
        emit_interface_added,
        defer_emit,
        emit_no_signals,
    };
    object(bus_t& b, const char* path,
           action a = action::emit_object_added) : T(b, path)...
    {
        if (a == action::emit_object_added || a == action::emit_interface_added)
            emit_object_added();
    }
    object(bus_t& b, const char* path, bool defer) :
        object(b, path, defer ? action::defer_emit : action::emit_object_added)
    {}
    object(const object&) = delete;
    object& operator=(const object&) = delete;
    void emit_object_added()
    {
        (static_cast<T*>(this)->fbAdded(), ...);
    }
    void emit_added()
    {
        emit_object_added();
    }
};
} // namespace object
template <typename... T>
using object_t = object::object<T...>;
} // namespace server

// ---- generated server bindings ----
#define FB_PROP(type, name, DbusName)                                          \
  public:                                                                      \
    virtual type name() const                                                  \
    {                                                                          \
        return _##name;                                                        \
    }                                                                          \
    virtual type name(type v_, bool skipSignal)                             \
    {                                                                          \
        if (_##name != v_)                                                  \
        {                                                                      \
            _##name = v_;                                                   \
            if (!skipSignal)                                                   \
                fbChanged(DbusName);                                           \
        }                                                                      \
        return _##name;                                                        \
    }                                                                          \
    virtual type name(type v_)                                              \
    {                                                                          \
        return name(v_, false);                                             \
    }                                                                          \
                                                                               \
  private:                                                                     \
    type _##name{};                                                            \
                                                                               \
  public:

#define FB_CTOR(Cls)                                                           \
    Cls() = delete;                                                            \
    Cls(bus_t& b, const char* path) : IfaceBase(b.impl, path, interface) {}    \
    ~Cls() override = default;

} // namespace sdbusplus

#define FB_COMMON(ns, Cls, ifc, ...)                                           \
    namespace sdbusplus::common::xyz::openbmc_project::ns                      \
    {                                                                          \
    struct Cls                                                                 \
    {                                                                          \
        static constexpr auto interface = ifc;                                 \
        __VA_ARGS__                                                            \
    };                                                                         \
    }
#define FB_NAMES(...)                                                          \
    struct property_names                                                      \
    {                                                                          \
        __VA_ARGS__                                                            \
    };
#define FB_N(a, b) static constexpr auto a = b;

namespace sdbusplus::common::xyz::openbmc_project
{
struct ObjectMapper
{
    static constexpr auto interface = "xyz.openbmc_project.ObjectMapper";
    static constexpr auto default_service = "xyz.openbmc_project.ObjectMapper";
    static constexpr auto instance_path = "/xyz/openbmc_project/object_mapper";
    struct method_names
    {
        static constexpr auto get_object = "GetObject";
        static constexpr auto get_ancestors = "GetAncestors";
        static constexpr auto get_sub_tree = "GetSubTree";
        static constexpr auto get_sub_tree_paths = "GetSubTreePaths";
    };
};
struct Association
{
    static constexpr auto interface = "xyz.openbmc_project.Association";
};
} // namespace sdbusplus::common::xyz::openbmc_project
FB_COMMON(association, Definitions, "xyz.openbmc_project.Association.Definitions",
          FB_NAMES(FB_N(associations, "Associations")))
FB_COMMON(control, FanPwm, "xyz.openbmc_project.Control.FanPwm",
          FB_NAMES(FB_N(target, "Target")))
FB_COMMON(control, FanRedundancy, "xyz.openbmc_project.Control.FanRedundancy",
          FB_NAMES(FB_N(status, "Status") FB_N(collection, "Collection")
                       FB_N(allowed_failures, "AllowedFailures")))
FB_COMMON(control, Mode, "xyz.openbmc_project.Control.Mode",
          FB_NAMES(FB_N(manual, "Manual") FB_N(fail_safe, "FailSafe")))
FB_COMMON(control, ThermalMode, "xyz.openbmc_project.Control.ThermalMode",
          FB_NAMES(FB_N(current, "Current") FB_N(supported, "Supported")))
FB_COMMON(debug::pid, ThermalPower, "xyz.openbmc_project.Debug.Pid.ThermalPower",
          FB_NAMES(FB_N(setpoint, "Setpoint") FB_N(class_type, "ClassType")
                       FB_N(leader, "Leader") FB_N(input, "Input")
                           FB_N(output, "Output")))
FB_COMMON(debug::pid, Zone, "xyz.openbmc_project.Debug.Pid.Zone",
          FB_NAMES(FB_N(leader, "Leader")))
FB_COMMON(object, Enable, "xyz.openbmc_project.Object.Enable",
          FB_NAMES(FB_N(enabled, "Enabled")))
FB_COMMON(sensor, Value, "xyz.openbmc_project.Sensor.Value",
          FB_NAMES(FB_N(value, "Value") FB_N(max_value, "MaxValue")
                       FB_N(min_value, "MinValue") FB_N(unit, "Unit"))
              struct namespace_path {
                  static constexpr auto value = "/xyz/openbmc_project/sensors";
                  static constexpr auto temperature = "temperature";
                  static constexpr auto fan_tach = "fan_tach";
                  static constexpr auto power = "power";
              };)
FB_COMMON(sensor::threshold, Critical,
          "xyz.openbmc_project.Sensor.Threshold.Critical",
          FB_NAMES(FB_N(critical_high, "CriticalHigh")
                       FB_N(critical_low, "CriticalLow")
                           FB_N(critical_alarm_high, "CriticalAlarmHigh")
                               FB_N(critical_alarm_low, "CriticalAlarmLow")))
FB_COMMON(sensor::threshold, Warning,
          "xyz.openbmc_project.Sensor.Threshold.Warning",
          FB_NAMES(FB_N(warning_high, "WarningHigh")
                       FB_N(warning_low, "WarningLow")
                           FB_N(warning_alarm_high, "WarningAlarmHigh")
                               FB_N(warning_alarm_low, "WarningAlarmLow")))
FB_COMMON(state, Host, "xyz.openbmc_project.State.Host",
          FB_NAMES(FB_N(current_host_state, "CurrentHostState")
                       FB_N(requested_host_transition,
                            "RequestedHostTransition")))
FB_COMMON(state::decorator, Availability,
          "xyz.openbmc_project.State.Decorator.Availability",
          FB_NAMES(FB_N(available, "Available")))
FB_COMMON(state::decorator, OperationalStatus,
          "xyz.openbmc_project.State.Decorator.OperationalStatus",
          FB_NAMES(FB_N(functional, "Functional")))

namespace sdbusplus
{
#define FB_GETSET1(T, name, DbusName)                                          \
    if (n == DbusName)                                                         \
        return fakebus::Codec<T>::to(name());
#define FB_SET1(T, name, DbusName)                                             \
    if (n == DbusName)                                                         \
    {                                                                          \
        T x{};                                                                 \
        fakebus::Codec<T>::from(v, x);                                         \
        name(x);                                                               \
        return;                                                                \
    }
namespace xyz::openbmc_project::Control::server
{
class Mode :
    public fakebus::IfaceBase,
    public sdbusplus::common::xyz::openbmc_project::control::Mode
{
  public:
    FB_CTOR(Mode)
    FB_PROP(bool, manual, "Manual")
    FB_PROP(bool, failSafe, "FailSafe")
    std::vector<std::string> fbNames() const override
    {
        return {"Manual", "FailSafe"};
    }
    fakebus::Val fbGet(const std::string& n) const override
    {
        FB_GETSET1(bool, manual, "Manual")
        FB_GETSET1(bool, failSafe, "FailSafe")
        throw exception::SdBusError(
            ENOENT, "org.freedesktop.DBus.Error.UnknownProperty", n);
    }
    void fbSet(const std::string& n, const fakebus::Val& v) override
    {
        FB_SET1(bool, manual, "Manual")
        throw exception::SdBusError(
            EPERM, "org.freedesktop.DBus.Error.PropertyReadOnly", n);
    }
};
} // namespace xyz::openbmc_project::Control::server
namespace xyz::openbmc_project::Debug::Pid::server
{
class Zone :
    public fakebus::IfaceBase,
    public sdbusplus::common::xyz::openbmc_project::debug::pid::Zone
{
  public:
    using sdbusplus::common::xyz::openbmc_project::debug::pid::Zone::interface;
    FB_CTOR(Zone)
    FB_PROP(std::string, leader, "Leader")
    std::vector<std::string> fbNames() const override
    {
        return {"Leader"};
    }
    fakebus::Val fbGet(const std::string& n) const override
    {
        FB_GETSET1(std::string, leader, "Leader")
        throw exception::SdBusError(
            ENOENT, "org.freedesktop.DBus.Error.UnknownProperty", n);
    }
    void fbSet(const std::string& n, const fakebus::Val& v) override
    {
        FB_SET1(std::string, leader, "Leader")
    }
};
class ThermalPower :
    public fakebus::IfaceBase,
    public sdbusplus::common::xyz::openbmc_project::debug::pid::ThermalPower
{
  public:
    FB_CTOR(ThermalPower)
    FB_PROP(double, setpoint, "Setpoint")
    FB_PROP(std::string, classType, "ClassType")
    FB_PROP(std::string, leader, "Leader")
    FB_PROP(double, input, "Input")
    FB_PROP(double, output, "Output")
    std::vector<std::string> fbNames() const override
    {
        return {"Setpoint", "ClassType", "Leader", "Input", "Output"};
    }
    fakebus::Val fbGet(const std::string& n) const override
    {
        FB_GETSET1(double, setpoint, "Setpoint")
        FB_GETSET1(std::string, classType, "ClassType")
        FB_GETSET1(std::string, leader, "Leader")
        FB_GETSET1(double, input, "Input")
        FB_GETSET1(double, output, "Output")
        throw exception::SdBusError(
            ENOENT, "org.freedesktop.DBus.Error.UnknownProperty", n);
    }
    void fbSet(const std::string& n, const fakebus::Val& v) override
    {
        FB_SET1(double, setpoint, "Setpoint")
        FB_SET1(std::string, classType, "ClassType")
        FB_SET1(std::string, leader, "Leader")
        FB_SET1(double, input, "Input")
        FB_SET1(double, output, "Output")
    }
};
} // namespace xyz::openbmc_project::Debug::Pid::server
namespace xyz::openbmc_project::Object::server
{
class Enable :
    public fakebus::IfaceBase,
    public sdbusplus::common::xyz::openbmc_project::object::Enable
{
  public:
    FB_CTOR(Enable)
    FB_PROP(bool, enabled, "Enabled")
    std::vector<std::string> fbNames() const override
    {
        return {"Enabled"};
    }
    fakebus::Val fbGet(const std::string& n) const override
    {
        FB_GETSET1(bool, enabled, "Enabled")
        throw exception::SdBusError(
            ENOENT, "org.freedesktop.DBus.Error.UnknownProperty", n);
    }
    void fbSet(const std::string& n, const fakebus::Val& v) override
    {
        FB_SET1(bool, enabled, "Enabled")
    }
};
} // namespace xyz::openbmc_project::Object::server
namespace xyz::openbmc_project::Sensor::server
{
class Value :
    public fakebus::IfaceBase,
    public sdbusplus::common::xyz::openbmc_project::sensor::Value
{
  public:
    enum class Unit
    {
        Amperes,
        DegreesC,
        Joules,
        Meters,
        Percent,
        RPMS,
        Volts,
        Watts,
    };
    FB_CTOR(Value)
    FB_PROP(double, value, "Value")
    FB_PROP(double, maxValue, "MaxValue")
    FB_PROP(double, minValue, "MinValue")
    FB_PROP(Unit, unit, "Unit")
    std::vector<std::string> fbNames() const override
    {
        return {"Value", "MaxValue", "MinValue", "Unit"};
    }
    fakebus::Val fbGet(const std::string& n) const override
    {
        FB_GETSET1(double, value, "Value")
        FB_GETSET1(double, maxValue, "MaxValue")
        FB_GETSET1(double, minValue, "MinValue")
        if (n == "Unit")
        {
            static const char* nm[] = {"Amperes", "DegreesC", "Joules",
                                       "Meters",  "Percent",  "RPMS",
                                       "Volts",   "Watts"};
            return fakebus::Codec<std::string>::to(
                std::string("xyz.openbmc_project.Sensor.Value.Unit.") +
                nm[static_cast<int>(unit())]);
        }
        throw exception::SdBusError(
            ENOENT, "org.freedesktop.DBus.Error.UnknownProperty", n);
    }
    void fbSet(const std::string& n, const fakebus::Val& v) override
    {
        FB_SET1(double, value, "Value")
        throw exception::SdBusError(
            EPERM, "org.freedesktop.DBus.Error.PropertyReadOnly", n);
    }
};
} // namespace xyz::openbmc_project::Sensor::server
} // namespace sdbusplus
// older spellings used for clients
namespace sdbusplus::client::xyz::openbmc_project
{
namespace control
{
using FanPwm = sdbusplus::common::xyz::openbmc_project::control::FanPwm;
using Mode = sdbusplus::common::xyz::openbmc_project::control::Mode;
} // namespace control
} // namespace sdbusplus::client::xyz::openbmc_project
