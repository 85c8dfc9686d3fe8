// Deterministic whole-daemon simulator for phosphor-pid-control.
//
// Links every source of swampd, the IPMI provider and setsensor, unmodified,
// against the in-process D-Bus of stubs/.  Time is virtual: the process only
// "sleeps" inside select(2), which is interposed here.  A scenario (JSON) gives
// configuration, bus contents and a timed list of external events; the output is
// one JSON record per quiescent point, holding only externally meaningful state.
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include <fakebus.hpp>
#include <ipmid/oemrouter.hpp>
#include <nlohmann/json.hpp>

#include "conf.hpp"
#include "pid/zone_interface.hpp"

#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>

using json = nlohmann::json;
using fakebus::BusImpl;
using fakebus::IfaceBase;
using fakebus::MatchEntry;
using fakebus::MsgData;
using fakebus::Val;
using MsgPtr = std::shared_ptr<MsgData>;

int swampd_main(int argc, char** argv);
int setsensor_main(int argc, char** argv);

namespace pid_control
{
extern __attribute__((weak)) std::map<std::string, conf::SensorConfig>
    sensorConfig;
extern __attribute__((weak)) std::map<int64_t, conf::PIDConf> zoneConfig;
extern __attribute__((weak)) std::map<int64_t, conf::ZoneConfig>
    zoneDetailsConfig;
} // namespace pid_control

namespace
{
struct Fault
{
    std::string dest, path, iface, member, arg0;
    int skip = 0, count = -1;
    std::string err;
};

struct Sim
{
    // virtual time in microseconds since simulation start
    int64_t now = 0;
    int64_t steadyBase = 1000LL * 1000000;
    int64_t sysBase = 1700000000LL * 1000000;
    int64_t endUs = 0;
    bool running = false; // swampd_main entered
    boost::asio::io_context* io = nullptr;

    std::string scratch;
    FILE* out = nullptr;
    json scen;
    std::vector<json> ops;
    size_t nextOp = 0;
    std::vector<std::pair<int64_t, int64_t>> late;
    std::vector<std::string> names;
    std::vector<std::string> watch;
    std::map<std::string, size_t> watchPos;
    std::vector<Fault> faults;
    bool recordCalls = true;
    bool lateMode = false;

    // bus
    uint64_t busSeq = 0, matchSeq = 0;
    // svc -> path -> iface -> prop -> value
    std::map<std::string,
             std::map<std::string,
                      std::map<std::string, std::map<std::string, Val>>>>
        world;
    std::vector<std::shared_ptr<BusImpl>> buses;
    std::map<std::string, std::weak_ptr<BusImpl>> owners;
    std::vector<MatchEntry*> matches;
    std::vector<IfaceBase*> objs;

    // events since last record
    json ev = json::array();
    std::string cause = "boot";
    json causeInfo = nullptr;
    uint64_t nObs = 0;
    int64_t lastSelNow = -1;
    uint64_t idleSpin = 0;
    int errfd = -1, outfd = -1;
    off_t errpos = 0, outpos = 0;
    bool quiet = false; // inside observation
    int exitCode = -999;
    std::string confDump;
    bool dead = false;
    std::map<int, std::string> sysWriteFds;
    std::map<int, std::string> sysReadFds;
};

Sim& S()
{
    static Sim* s = new Sim;
    return *s;
}

json num(double d)
{
    if (std::isnan(d))
        return "nan";
    if (std::isinf(d))
        return d > 0 ? "inf" : "-inf";
    return d;
}

double jnum(const json& j)
{
    if (j.is_string())
    {
        const std::string s = j;
        if (s == "nan")
            return std::numeric_limits<double>::quiet_NaN();
        if (s == "inf")
            return std::numeric_limits<double>::infinity();
        if (s == "-inf")
            return -std::numeric_limits<double>::infinity();
        return std::stod(s);
    }
    return j.get<double>();
}

// ---- typed values <-> JSON ----
size_t sigEnd(const std::string& s, size_t i)
{
    if (s[i] == 'a')
        return sigEnd(s, i + 1);
    if (s[i] == '(' || s[i] == '{')
    {
        char close = s[i] == '(' ? ')' : '}';
        size_t k = i + 1;
        while (s[k] != close)
            k = sigEnd(s, k);
        return k + 1;
    }
    return i + 1;
}

Val parseVal(const std::string& sig, const json& j)
{
    Val v;
    v.sig = sig;
    switch (sig.at(0))
    {
        case 'b':
            v.b = j.get<bool>();
            break;
        case 'n':
        case 'i':
        case 'x':
            v.i = j.get<int64_t>();
            break;
        case 'y':
        case 'q':
        case 'u':
        case 't':
            v.u = j.get<uint64_t>();
            break;
        case 'd':
            v.d = jnum(j);
            break;
        case 's':
        case 'o':
        case 'g':
            v.s = j.get<std::string>();
            break;
        case 'v':
            v.c.push_back(parseVal(j.at(0).get<std::string>(), j.at(1)));
            break;
        case 'a':
        {
            std::string e = sig.substr(1);
            for (const auto& x : j)
                v.c.push_back(parseVal(e, x));
            break;
        }
        case '(':
        case '{':
        {
            size_t i = 1, n = 0;
            while (i + 1 < sig.size())
            {
                size_t k = sigEnd(sig, i);
                v.c.push_back(parseVal(sig.substr(i, k - i), j.at(n++)));
                i = k;
            }
            break;
        }
        default:
            throw std::runtime_error("bad signature " + sig);
    }
    return v;
}

json toJson(const Val& v)
{
    switch (v.sig.empty() ? '?' : v.sig[0])
    {
        case 'b':
            return v.b;
        case 'n':
        case 'i':
        case 'x':
            return v.i;
        case 'y':
        case 'q':
        case 'u':
        case 't':
            return v.u;
        case 'd':
            return num(v.d);
        case 's':
        case 'o':
        case 'g':
            return v.s;
        case 'v':
            return json::array({v.c.at(0).sig, toJson(v.c.at(0))});
        default:
        {
            json a = json::array();
            for (const auto& e : v.c)
                a.push_back(toJson(e));
            return a;
        }
    }
}

Val mkStr(const std::string& s, const char* sig = "s")
{
    Val v;
    v.sig = sig;
    v.s = s;
    return v;
}

Val mkVariant(Val in)
{
    Val v;
    v.sig = "v";
    v.c.push_back(std::move(in));
    return v;
}

Val mkEntry(const std::string& sig, Val a, Val b)
{
    Val v;
    v.sig = sig;
    v.c.push_back(std::move(a));
    v.c.push_back(std::move(b));
    return v;
}

Val mkDict(const std::map<std::string, Val>& props)
{
    Val d;
    d.sig = "a{sv}";
    for (const auto& [k, x] : props)
        d.c.push_back(mkEntry("{sv}", mkStr(k), mkVariant(x)));
    return d;
}

void event(json e)
{
    if (!S().quiet)
        S().ev.push_back(std::move(e));
}

// ---- signals ----
std::map<std::string, std::string> parseRule(const std::string& r)
{
    std::map<std::string, std::string> m;
    size_t i = 0;
    while (i < r.size())
    {
        while (i < r.size() && (r[i] == ',' || r[i] == ' '))
            ++i;
        size_t eq = r.find('=', i);
        if (eq == std::string::npos)
            break;
        std::string k = r.substr(i, eq - i);
        i = eq + 1;
        std::string v;
        if (i < r.size() && r[i] == '\'')
        {
            size_t q = r.find('\'', i + 1);
            if (q == std::string::npos)
                q = r.size();
            v = r.substr(i + 1, q - i - 1);
            i = q + 1;
        }
        else
        {
            size_t c = r.find(',', i);
            if (c == std::string::npos)
                c = r.size();
            v = r.substr(i, c - i);
            i = c;
        }
        m[k] = v;
    }
    return m;
}

bool inPathNs(const std::string& p, const std::string& ns)
{
    return ns == "/" || p == ns ||
           (p.size() > ns.size() && p.compare(0, ns.size(), ns) == 0 &&
            p[ns.size()] == '/');
}

bool ruleMatches(const std::map<std::string, std::string>& r, const MsgData& m)
{
    for (const auto& [k, v] : r)
    {
        if (k == "type")
        {
            if (v != m.type)
                return false;
        }
        else if (k == "interface")
        {
            if (v != m.iface)
                return false;
        }
        else if (k == "member")
        {
            if (v != m.member)
                return false;
        }
        else if (k == "path")
        {
            if (v != m.path)
                return false;
        }
        else if (k == "path_namespace")
        {
            if (!inPathNs(m.path, v))
                return false;
        }
        else if (k == "sender")
        {
            if (v != m.sender)
                return false;
        }
        else if (k == "arg0namespace")
        {
            if (m.args.empty() || m.args[0].sig != "s")
                return false;
            const auto& a = m.args[0].s;
            if (!(a == v || (a.size() > v.size() &&
                             a.compare(0, v.size(), v) == 0 &&
                             a[v.size()] == '.')))
                return false;
        }
        else if (k.rfind("arg", 0) == 0)
        {
            bool isPath = k.size() > 4 && k.substr(k.size() - 4) == "path";
            size_t n = std::stoul(k.substr(3));
            if (n >= m.args.size())
                return false;
            const auto& a = m.args[n];
            if (a.sig != "s" && !(isPath && a.sig == "o"))
                return false;
            if (!isPath)
            {
                if (a.s != v)
                    return false;
            }
            else
            {
                bool ok = a.s == v ||
                          (!v.empty() && v.back() == '/' &&
                           a.s.compare(0, v.size(), v) == 0) ||
                          (!a.s.empty() && a.s.back() == '/' &&
                           v.compare(0, a.s.size(), a.s) == 0);
                if (!ok)
                    return false;
            }
        }
    }
    return true;
}

void deliver(const MsgData& m) noexcept
{
    auto snap = S().matches;
    for (auto* e : snap)
    {
        if (std::find(S().matches.begin(), S().matches.end(), e) ==
            S().matches.end())
            continue;
        if (!ruleMatches(e->rule, m))
            continue;
        auto copy = std::make_shared<MsgData>(m);
        auto fn = e->fn; // the match may delete itself
        fn(copy);
    }
}

void emitPropsChanged(const std::string& sender, const std::string& path,
                      const std::string& iface,
                      const std::map<std::string, Val>& props)
{
    MsgData m;
    m.type = "signal";
    m.sender = sender;
    m.path = path;
    m.iface = "org.freedesktop.DBus.Properties";
    m.member = "PropertiesChanged";
    m.args.push_back(mkStr(iface));
    m.args.push_back(mkDict(props));
    Val inv;
    inv.sig = "as";
    m.args.push_back(inv);
    deliver(m);
}

void emitIfacesAdded(
    const std::string& sender, const std::string& mgr, const std::string& path,
    const std::map<std::string, std::map<std::string, Val>>& ifaces)
{
    MsgData m;
    m.type = "signal";
    m.sender = sender;
    m.path = mgr;
    m.iface = "org.freedesktop.DBus.ObjectManager";
    m.member = "InterfacesAdded";
    m.args.push_back(mkStr(path, "o"));
    Val d;
    d.sig = "a{sa{sv}}";
    for (const auto& [i, p] : ifaces)
        d.c.push_back(mkEntry("{sa{sv}}", mkStr(i), mkDict(p)));
    m.args.push_back(d);
    deliver(m);
}

void emitIfacesRemoved(const std::string& sender, const std::string& mgr,
                       const std::string& path,
                       const std::vector<std::string>& ifaces)
{
    MsgData m;
    m.type = "signal";
    m.sender = sender;
    m.path = mgr;
    m.iface = "org.freedesktop.DBus.ObjectManager";
    m.member = "InterfacesRemoved";
    m.args.push_back(mkStr(path, "o"));
    Val d;
    d.sig = "as";
    for (const auto& i : ifaces)
        d.c.push_back(mkStr(i));
    m.args.push_back(d);
    deliver(m);
}

[[noreturn]] void busErr(const std::string& n, const std::string& d,
                         int e = EIO)
{
    throw sdbusplus::exception::SdBusError(
        e, "org.freedesktop.DBus.Error." + n, d);
}

std::string strArg(const MsgData& m, size_t i)
{
    if (i >= m.args.size() || (m.args[i].sig != "s" && m.args[i].sig != "o"))
        busErr("InvalidArgs", "bad argument", EINVAL);
    return m.args[i].s;
}

MsgPtr reply()
{
    auto r = std::make_shared<MsgData>();
    r->type = "method_return";
    return r;
}

// (service, path) -> interfaces, over the world and the daemon's own objects
void forAllObjects(
    const std::function<void(const std::string&, const std::string&,
                             const std::string&)>& fn)
{
    for (const auto& [svc, paths] : S().world)
        for (const auto& [p, ifs] : paths)
            for (const auto& [i, _] : ifs)
                fn(svc, p, i);
    for (auto* o : S().objs)
        for (const auto& n : o->fbBus->names)
            fn(n, o->fbPath, o->fbIface);
}

MsgPtr mapperCall(const MsgData& m)
{
    auto wanted = [&](size_t i) {
        std::set<std::string> w;
        if (i >= m.args.size() || m.args[i].sig != "as")
            busErr("InvalidArgs", "bad interface list", EINVAL);
        for (const auto& x : m.args[i].c)
            w.insert(x.s);
        return w;
    };
    auto r = reply();
    if (m.member == "GetObject")
    {
        std::string path = strArg(m, 0);
        auto w = wanted(1);
        std::map<std::string, std::set<std::string>> all;
        forAllObjects([&](const std::string& s, const std::string& p,
                          const std::string& i) {
            if (p == path)
                all[s].insert(i);
        });
        Val d;
        d.sig = "a{sas}";
        for (const auto& [s, ifs] : all)
        {
            bool hit = w.empty() || std::any_of(ifs.begin(), ifs.end(),
                                                [&](const auto& i) {
                                                    return w.contains(i);
                                                });
            if (!hit)
                continue;
            Val l;
            l.sig = "as";
            for (const auto& i : ifs)
                l.c.push_back(mkStr(i));
            d.c.push_back(mkEntry("{sas}", mkStr(s), l));
        }
        if (d.c.empty())
            busErr("FileNotFound", "path or object not found", ENOENT);
        r->args.push_back(d);
        return r;
    }
    if (m.member == "GetSubTree" || m.member == "GetSubTreePaths")
    {
        std::string root = strArg(m, 0);
        if (m.args.size() < 3 || m.args[1].sig != "i")
            busErr("InvalidArgs", "bad depth", EINVAL);
        int64_t depth = m.args[1].i;
        auto w = wanted(2);
        std::map<std::string, std::map<std::string, std::set<std::string>>> all;
        std::string pfx = root;
        while (pfx.size() > 1 && pfx.back() == '/')
            pfx.pop_back();
        forAllObjects([&](const std::string& s, const std::string& p,
                          const std::string& i) {
            bool under = pfx == "/" ||
                         (p.size() > pfx.size() &&
                          p.compare(0, pfx.size(), pfx) == 0 &&
                          p[pfx.size()] == '/');
            if (!under)
                return;
            if (depth > 0)
            {
                int64_t n = std::count(p.begin() + (pfx == "/" ? 0 : pfx.size()),
                                       p.end(), '/');
                if (n > depth)
                    return;
            }
            all[p][s].insert(i);
        });
        Val d;
        d.sig = m.member == "GetSubTree" ? "a{sa{sas}}" : "as";
        for (const auto& [p, svcs] : all)
        {
            Val in;
            in.sig = "a{sas}";
            for (const auto& [s, ifs] : svcs)
            {
                bool hit = w.empty() || std::any_of(ifs.begin(), ifs.end(),
                                                    [&](const auto& i) {
                                                        return w.contains(i);
                                                    });
                if (!hit)
                    continue;
                Val l;
                l.sig = "as";
                for (const auto& i : ifs)
                    l.c.push_back(mkStr(i));
                in.c.push_back(mkEntry("{sas}", mkStr(s), l));
            }
            if (in.c.empty())
                continue;
            if (m.member == "GetSubTree")
                d.c.push_back(mkEntry("{sa{sas}}", mkStr(p, "s"), in));
            else
                d.c.push_back(mkStr(p));
        }
        r->args.push_back(d);
        return r;
    }
    busErr("UnknownMethod", m.member, EBADR);
}

Val managedObjects(
    const std::map<std::string,
                   std::map<std::string, std::map<std::string, Val>>>& objs)
{
    Val d;
    d.sig = "a{oa{sa{sv}}}";
    for (const auto& [p, ifs] : objs)
    {
        Val l;
        l.sig = "a{sa{sv}}";
        for (const auto& [i, props] : ifs)
            l.c.push_back(mkEntry("{sa{sv}}", mkStr(i), mkDict(props)));
        d.c.push_back(mkEntry("{oa{sa{sv}}}", mkStr(p, "o"), l));
    }
    return d;
}

std::vector<IfaceBase*> ownObjects(BusImpl* b, const std::string& path)
{
    std::vector<IfaceBase*> v;
    for (auto* o : S().objs)
        if (o->fbBus.get() == b && o->fbPath == path)
            v.push_back(o);
    return v;
}

MsgPtr route(const MsgData& m)
{
    if (m.dest == "xyz.openbmc_project.ObjectMapper")
        return mapperCall(m);

    auto own = S().owners.find(m.dest);
    if (own != S().owners.end() && !own->second.expired())
    {
        auto bus = own->second.lock();
        auto here = ownObjects(bus.get(), m.path);
        if (m.iface == "org.freedesktop.DBus.ObjectManager" &&
            m.member == "GetManagedObjects")
        {
            std::map<std::string,
                     std::map<std::string, std::map<std::string, Val>>>
                objs;
            for (auto* o : S().objs)
            {
                if (o->fbBus != bus || !inPathNs(o->fbPath, m.path))
                    continue;
                auto& p = objs[o->fbPath][o->fbIface];
                for (const auto& n : o->fbNames())
                    p[n] = o->fbGet(n);
            }
            auto r = reply();
            r->args.push_back(managedObjects(objs));
            return r;
        }
        if (here.empty())
            busErr("UnknownObject", "Unknown object '" + m.path + "'.", EBADR);
        if (m.iface != "org.freedesktop.DBus.Properties")
            busErr("UnknownInterface", m.iface, EBADR);
        std::string ifn = strArg(m, 0);
        IfaceBase* t = nullptr;
        for (auto* o : here)
            if (o->fbIface == ifn)
                t = o;
        if (!t)
            busErr("UnknownInterface", ifn, EBADR);
        auto r = reply();
        if (m.member == "Get")
            r->args.push_back(mkVariant(t->fbGet(strArg(m, 1))));
        else if (m.member == "GetAll")
        {
            std::map<std::string, Val> p;
            for (const auto& n : t->fbNames())
                p[n] = t->fbGet(n);
            r->args.push_back(mkDict(p));
        }
        else if (m.member == "Set")
        {
            std::string prop = strArg(m, 1);
            auto names = t->fbNames();
            if (std::find(names.begin(), names.end(), prop) == names.end())
                busErr("UnknownProperty", prop, EBADR);
            if (m.args.size() < 3 || m.args[2].sig != "v")
                busErr("InvalidArgs", "no value", EINVAL);
            t->fbSet(prop, m.args[2].c.at(0));
        }
        else
            busErr("UnknownMethod", m.member, EBADR);
        return r;
    }

    auto sv = S().world.find(m.dest);
    if (sv == S().world.end())
        busErr("ServiceUnknown",
               "The name " + m.dest + " was not provided by any .service files",
               EHOSTUNREACH);
    if (m.iface == "org.freedesktop.DBus.ObjectManager" &&
        m.member == "GetManagedObjects")
    {
        std::map<std::string,
                 std::map<std::string, std::map<std::string, Val>>>
            objs;
        for (const auto& [p, ifs] : sv->second)
            if (inPathNs(p, m.path))
                objs[p] = ifs;
        auto r = reply();
        r->args.push_back(managedObjects(objs));
        return r;
    }
    auto ob = sv->second.find(m.path);
    if (ob == sv->second.end())
        busErr("UnknownObject", "Unknown object '" + m.path + "'.", EBADR);
    if (m.iface != "org.freedesktop.DBus.Properties")
        busErr("UnknownInterface", m.iface, EBADR);
    std::string ifn = strArg(m, 0);
    auto ifc = ob->second.find(ifn);
    if (ifc == ob->second.end())
        busErr("UnknownInterface", ifn, EBADR);
    auto r = reply();
    if (m.member == "Get")
    {
        auto p = ifc->second.find(strArg(m, 1));
        if (p == ifc->second.end())
            busErr("UnknownProperty", "Unknown property", EBADR);
        r->args.push_back(mkVariant(p->second));
    }
    else if (m.member == "GetAll")
        r->args.push_back(mkDict(ifc->second));
    else if (m.member == "Set")
    {
        std::string prop = strArg(m, 1);
        auto p = ifc->second.find(prop);
        if (p == ifc->second.end())
            busErr("UnknownProperty", "Unknown property", EBADR);
        if (m.args.size() < 3 || m.args[2].sig != "v")
            busErr("InvalidArgs", "no value", EINVAL);
        if (p->second.sig != m.args[2].c.at(0).sig)
            busErr("InvalidArgs", "Invalid type for property", EINVAL);
        p->second = m.args[2].c.at(0);
    }
    else
        busErr("UnknownMethod", m.member, EBADR);
    return r;
}
} // namespace

namespace fakebus
{
std::shared_ptr<BusImpl> makeBus(const char* kind)
{
    auto b = std::make_shared<BusImpl>();
    b->id = std::string(kind) + std::to_string(++S().busSeq);
    return b;
}

void requestName(BusImpl& b, const std::string& name)
{
    // find the shared_ptr through the weak registry kept per name
    b.names.insert(name);
    S().owners[name] =
        std::shared_ptr<BusImpl>(std::shared_ptr<BusImpl>(), &b);
    // aliasing shared_ptr without ownership: keep it alive artificially
    static auto* keep = new std::vector<std::shared_ptr<BusImpl>>;
    keep->push_back(std::shared_ptr<BusImpl>(&b, [](BusImpl*) {}));
    S().owners[name] = keep->back();
    event({"name", name});
}

std::shared_ptr<MsgData> doCall(BusImpl& b, const std::shared_ptr<MsgData>& m,
                                bool wantReply)
{
    json rec;
    if (S().recordCalls && !S().quiet)
    {
        std::string kind = b.id;
        while (!kind.empty() && std::isdigit((unsigned char)kind.back()))
            kind.pop_back();
        json args = json::array();
        for (const auto& a : m->args)
            args.push_back(json::array({a.sig, toJson(a)}));
        rec = {"call", m->dest, m->path, m->iface, m->member, args, kind};
    }
    auto note = [&](bool ok) {
        if (!rec.is_null())
        {
            rec.push_back(ok);
            rec.push_back(wantReply);
            event(rec);
        }
    };
    try
    {
        for (auto& f : S().faults)
        {
            if (f.count == 0)
                continue;
            if (!f.dest.empty() && f.dest != m->dest)
                continue;
            if (!f.path.empty() && f.path != m->path)
                continue;
            if (!f.iface.empty() && f.iface != m->iface)
                continue;
            if (!f.member.empty() && f.member != m->member)
                continue;
            if (!f.arg0.empty() &&
                (m->args.empty() || m->args[0].s != f.arg0))
                continue;
            if (f.skip > 0)
            {
                --f.skip;
                continue;
            }
            if (f.count > 0)
                --f.count;
            busErr("Timeout", f.err.empty() ? "simulated fault" : f.err,
                   ETIMEDOUT);
        }
        if (!wantReply)
        {
            // nobody listens for an answer, so an error is not seen either
            bool ok = true;
            try
            {
                route(*m);
            }
            catch (const sdbusplus::exception::SdBusError&)
            {
                ok = false;
            }
            note(ok);
            return nullptr;
        }
        auto r = route(*m);
        note(true);
        return r;
    }
    catch (...)
    {
        note(false);
        throw;
    }
}

MatchEntry* addMatch(BusImpl&, const std::string& rule,
                     std::function<void(const std::shared_ptr<MsgData>&)> fn)
{
    auto* e = new MatchEntry;
    e->rule = parseRule(rule);
    e->fn = std::move(fn);
    e->seq = ++S().matchSeq;
    S().matches.push_back(e);
    return e;
}

void removeMatch(MatchEntry* e)
{
    auto& v = S().matches;
    v.erase(std::remove(v.begin(), v.end(), e), v.end());
    delete e;
}

IfaceBase::IfaceBase(std::shared_ptr<BusImpl> bus, const char* path,
                     const char* iface) :
    fbBus(std::move(bus)), fbPath(path), fbIface(iface)
{
    // sd_bus_add_object_vtable refuses a second vtable for the same interface
    for (auto* o : S().objs)
        if (o->fbBus == fbBus && o->fbPath == fbPath && o->fbIface == fbIface)
            throw sdbusplus::exception::SdBusError(
                EEXIST, "sd_bus_add_object_vtable");
    S().objs.push_back(this);
    event({"obj+", fbPath, fbIface});
}

IfaceBase::~IfaceBase()
{
    auto& v = S().objs;
    v.erase(std::remove(v.begin(), v.end(), this), v.end());
    event({"obj-", fbPath, fbIface});
}

void IfaceBase::fbChanged(const std::string& name)
{
    Val v;
    try
    {
        v = fbGet(name);
    }
    catch (...)
    {
        return;
    }
    event({"changed", fbPath, fbIface, name, toJson(v)});
    std::string sender = fbBus->names.empty() ? "" : *fbBus->names.begin();
    emitPropsChanged(sender, fbPath, fbIface, {{name, v}});
}

void IfaceBase::fbAdded()
{
    if (fbEmitted)
        return;
    fbEmitted = true;
    event({"added", fbPath, fbIface});
}

void attachIo(void* io)
{
    if (!S().io)
        S().io = static_cast<boost::asio::io_context*>(io);
}

void managerCreated(BusImpl&, const std::string& path)
{
    event({"objmgr", path});
}

void plog(const std::string& msg)
{
    event({"plog", msg});
}
} // namespace fakebus

namespace
{
struct SimRouter : oem::Router
{
    std::map<std::pair<oem::Number, uint8_t>, oem::Handler> h;
    void activate() override {}
    void registerHandler(oem::Number n, std::uint8_t c,
                         oem::Handler fn) override
    {
        h[{n, c}] = std::move(fn);
    }
};
SimRouter& router()
{
    static SimRouter* r = new SimRouter;
    return *r;
}
} // namespace
namespace oem
{
Router* mutableRouter()
{
    return &router();
}
} // namespace oem

// ---- observation ----
namespace
{
std::string readAll(const std::string& p, size_t from = 0)
{
    int fd = syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY | O_CLOEXEC, 0);
    if (fd < 0)
        return {};
    std::string s;
    char buf[65536];
    off_t off = from;
    ssize_t n;
    while ((n = pread(fd, buf, sizeof buf, off)) > 0)
    {
        s.append(buf, n);
        off += n;
    }
    syscall(SYS_close, fd);
    return s;
}

std::string drainFd(int fd, off_t& pos)
{
    std::string s;
    char buf[65536];
    ssize_t n;
    while (fd >= 0 && (n = pread(fd, buf, sizeof buf, pos)) > 0)
    {
        s.append(buf, n);
        pos += n;
    }
    return s;
}

template <typename Z>
json zoneState(Z* z)
{
    json o = json::object();
    if constexpr (requires { z->getZoneID(); })
        o["id"] = z->getZoneID();
    if constexpr (requires { z->getMaxSetPointRequest(); })
        o["setpt"] = num(z->getMaxSetPointRequest());
    if constexpr (requires { z->getFailSafeMode(); })
        o["fs"] = z->getFailSafeMode();
    if constexpr (requires { z->getFailSafePercent(); })
        o["fspct"] = num(z->getFailSafePercent());
    if constexpr (requires { z->getRedundantWrite(); })
        o["redun"] = z->getRedundantWrite();
    if constexpr (requires { z->getFailSafeSensors(); })
    {
        json f = json::object();
        for (const auto& [k, v] : z->getFailSafeSensors())
            f[k] = num(v.second);
        o["failing"] = f;
    }
    if constexpr (requires { z->getSensorNames(); })
        o["therm"] = z->getSensorNames();
    json c = json::object();
    auto add = [&](const std::string& n) {
        if constexpr (requires { z->getCachedValues(n).unscaled; })
        {
            try
            {
                auto v = z->getCachedValues(n);
                c[n] = json::array({num(v.scaled), num(v.unscaled)});
            }
            catch (...)
            {
                c[n] = nullptr;
            }
        }
    };
    for (const auto& n : S().names)
        add(n);
    o["cache"] = c;
    return o;
}

template <typename SC>
json sensorConfJson(const SC& c)
{
    json o;
#define F(n)                                                                   \
    if constexpr (requires { c.n; })                                           \
        o[#n] = c.n;
    F(type) F(readPath) F(writePath) F(min) F(max) F(timeout)
        F(ignoreDbusMinMax) F(unavailableAsFailed) F(ignoreFailIfHostOff)
#undef F
            return o;
}

template <typename P>
json pidConfJson(const P& c)
{
    json o;
    if constexpr (requires { c.type; })
        o["type"] = c.type;
    if constexpr (requires { c.setpoint; })
        o["setpoint"] = num(c.setpoint);
    if constexpr (requires { c.failSafePercent; })
        o["failSafePercent"] = num(c.failSafePercent);
    if constexpr (requires { c.inputs.begin()->name; })
    {
        json a = json::array();
        for (const auto& i : c.inputs)
        {
            json x;
            x["name"] = i.name;
            if constexpr (requires { i.convertTempToMargin; })
                x["conv"] = i.convertTempToMargin;
            if constexpr (requires { i.convertMarginZero; })
                x["zero"] = num(i.convertMarginZero);
            if constexpr (requires { i.missingIsAcceptable; })
                x["missing"] = i.missingIsAcceptable;
            a.push_back(x);
        }
        o["inputs"] = a;
    }
    if constexpr (requires { c.pidInfo.outLim.min; })
    {
        const auto& p = c.pidInfo;
        json x;
#define F(n)                                                                   \
    if constexpr (requires { p.n; })                                           \
        x[#n] = num(p.n);
        F(ts) F(proportionalCoeff) F(integralCoeff) F(derivativeCoeff)
            F(feedFwdOffset) F(feedFwdGain) F(integralLimit.min)
                F(integralLimit.max) F(outLim.min) F(outLim.max) F(slewNeg)
                    F(slewPos) F(positiveHysteresis) F(negativeHysteresis)
#undef F
                        if constexpr (requires { p.checkHysterWithSetpt; })
                            x["checkHysterWithSetpt"] = p.checkHysterWithSetpt;
        o["pid"] = x;
    }
    if constexpr (requires { c.stepwiseInfo.reading[0]; })
    {
        const auto& p = c.stepwiseInfo;
        json x;
        x["ts"] = num(p.ts);
        x["pos"] = num(p.positiveHysteresis);
        x["neg"] = num(p.negativeHysteresis);
        x["ceil"] = p.isCeiling;
        json t = json::array();
        constexpr size_t nmax =
            sizeof(p.reading) / sizeof(p.reading[0]);
        for (size_t i = 0; i < nmax; ++i)
        {
            // the first output counts whatever its reading
            if (i > 0 && std::isnan(p.reading[i]))
                break;
            t.push_back(json::array({num(p.reading[i]), num(p.output[i])}));
        }
        x["table"] = t;
        o["step"] = x;
    }
    return o;
}

json confDump()
{
    json o = json::object();
    using namespace pid_control;
    if (&sensorConfig)
    {
        json x = json::object();
        for (const auto& [k, v] : sensorConfig)
            x[k] = sensorConfJson(v);
        o["sensors"] = x;
    }
    if (&zoneConfig)
    {
        json x = json::object();
        for (const auto& [k, v] : zoneConfig)
        {
            json y = json::object();
            for (const auto& [n, c] : v)
                y[n] = pidConfJson(c);
            x[std::to_string(k)] = y;
        }
        o["pids"] = x;
    }
    if (&zoneDetailsConfig)
    {
        json x = json::object();
        for (const auto& [k, v] : zoneDetailsConfig)
        {
            json y;
            y["min"] = num(v.minThermalOutput);
            y["fs"] = num(v.failsafePercent);
            y["fan"] = v.cycleTime.cycleIntervalTimeMS;
            y["therm"] = v.cycleTime.updateThermalsTimeMS;
            y["acc"] = v.accumulateSetPoint;
            x[std::to_string(k)] = y;
        }
        o["zones"] = x;
    }
    return o;
}

json drainLogs(Sim& s)
{
    json l = json::object();
    fflush(stdout);
    fflush(stderr);
    std::cout.flush();
    std::string e = drainFd(s.errfd, s.errpos), o = drainFd(s.outfd, s.outpos);
    if (!e.empty())
        l["err"] = e;
    if (!o.empty())
        l["out"] = o;
    for (const auto& w : s.watch)
    {
        std::string c = readAll(w, s.watchPos[w]);
        if (!c.empty())
        {
            s.watchPos[w] += c.size();
            l[w.substr(s.scratch.size())] = c;
        }
    }
    return l;
}

void writeRec(const json& j)
{
    std::string t = j.dump(-1, ' ', false, json::error_handler_t::replace);
    t += '\n';
    fwrite_unlocked(t.data(), 1, t.size(), S().out);
}

void observe(int64_t nextWake, bool idle)
{
    Sim& s = S();
    s.quiet = true;
    json r;
    r["t"] = s.now;
    r["next"] = nextWake;
    r["idle"] = idle;
    r["cause"] = s.cause;
    if (!s.causeInfo.is_null())
        r["info"] = s.causeInfo;
    r["ev"] = std::move(s.ev);
    s.ev = json::array();
    json zones = json::array(), objs = json::array();
    for (auto* o : s.objs)
    {
        json x;
        x["path"] = o->fbPath;
        x["iface"] = o->fbIface;
        json p = json::object();
        for (const auto& n : o->fbNames())
        {
            try
            {
                p[n] = toJson(o->fbGet(n));
            }
            catch (...)
            {
            }
        }
        x["props"] = p;
        objs.push_back(x);
        if (o->fbIface == "xyz.openbmc_project.Control.Mode")
        {
            if (auto* z = dynamic_cast<pid_control::ZoneInterface*>(o))
            {
                json zj = zoneState(z);
                zj["path"] = o->fbPath;
                zones.push_back(zj);
            }
        }
    }
    r["zones"] = zones;
    r["objs"] = objs;
    json logs = drainLogs(s);
    if (!logs.empty())
        r["logs"] = logs;
    json cd = confDump();
    std::string cds = cd.dump();
    if (cds != s.confDump)
    {
        s.confDump = cds;
        r["conf"] = cd;
    }
    writeRec(r);
    ++s.nObs;
    s.quiet = false;
    if (s.nObs > 200000)
    {
        writeRec({{"end", "livelock"}, {"t", s.now}});
        fflush(s.out);
        _exit(3);
    }
    s.cause = "cont";
    s.causeInfo = nullptr;
}

struct Final
{
    ~Final()
    {
        Sim& s = S();
        if (!s.out || s.dead)
            return;
        s.quiet = true;
        json r;
        r["end"] = "exit";
        r["code"] = s.exitCode;
        r["t"] = s.now;
        r["cause"] = s.cause;
        if (!s.causeInfo.is_null())
            r["info"] = s.causeInfo;
        r["ev"] = std::move(s.ev);
        json logs = drainLogs(s);
        if (!logs.empty())
            r["logs"] = logs;
        writeRec(r);
        fflush(s.out);
        _exit(0);
    }
};
Final finalRec __attribute__((init_priority(101)));

void onExitHook(int code, void*)
{
    S().exitCode = code;
}

void dieRec(const char* how, const std::string& what)
{
    Sim& s = S();
    if (s.dead || !s.out)
        _exit(4);
    s.dead = true;
    s.quiet = true;
    json r;
    r["end"] = how;
    r["what"] = what;
    r["t"] = s.now;
    r["cause"] = s.cause;
    r["info"] = s.causeInfo;
    r["ev"] = s.ev;
    json logs = drainLogs(s);
    if (!logs.empty())
        r["logs"] = logs;
    writeRec(r);
    fflush(s.out);
    _exit(4);
}

void crashSig(int sig)
{
    // best effort: the process is going down anyway
    signal(sig, SIG_DFL);
    if (sig == SIGVTALRM || sig == SIGALRM)
        dieRec("hang", "cpu time limit");
    dieRec("crash", "signal " + std::to_string(sig));
}

void onTerminate()
{
    std::string what = "terminate";
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const std::exception& x)
        {
            what = std::string("uncaught exception: ") + x.what();
        }
        catch (...)
        {
            what = "uncaught exception";
        }
    }
    dieRec("crash", what);
}

std::string subst(const std::string& p)
{
    std::string r = p;
    if (r.size() > 1 && r[0] == '@' && r[1] != '@')
        r = S().scratch + r.substr(1);
    size_t i;
    while ((i = r.find("@@")) != std::string::npos)
        r.replace(i, 2, S().scratch);
    return r;
}

// paths the daemon looks at by absolute name live inside the scratch directory
const char* redirect(const char* p, std::string& hold)
{
    static const char* pre[] = {"/etc/thermal.d", "/var/lib/swampd",
                                "/usr/share/swampd", "/sys/"};
    if (!p)
        return p;
    for (const char* x : pre)
    {
        if (strncmp(p, x, strlen(x)) == 0)
        {
            hold = S().scratch + p;
            return hold.c_str();
        }
    }
    return p;
}

void mkParents(const std::string& p)
{
    for (size_t i = 1; i < p.size(); ++i)
        if (p[i] == '/')
            mkdir(p.substr(0, i).c_str(), 0755);
}

void putFile(std::string path, const json& content)
{
    std::string h;
    path = subst(path);
    path = redirect(path.c_str(), h);
    if (content.is_null())
    {
        unlink(path.c_str());
        rmdir(path.c_str());
        return;
    }
    mkParents(path);
    if (content.is_object() && content.contains("dir"))
    {
        // {"dir":true}
        unlink(path.c_str());
        mkdir(path.c_str(), 0755);
        return;
    }
    rmdir(path.c_str());
    std::string c = content.is_string() ? content.get<std::string>()
                                        : content.dump(1);
    size_t i;
    while ((i = c.find("@@")) != std::string::npos)
        c.replace(i, 2, S().scratch);
    int fd = syscall(SYS_openat, AT_FDCWD, path.c_str(),
                     O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        return;
    size_t off = 0;
    while (off < c.size())
    {
        ssize_t n = ::write(fd, c.data() + off, c.size() - off);
        if (n <= 0)
            break;
        off += n;
    }
    syscall(SYS_close, fd);
}

std::map<std::string, Val> parseProps(const json& j)
{
    std::map<std::string, Val> m;
    for (const auto& [k, v] : j.items())
        m[k] = parseVal(v.at(0).get<std::string>(), v.at(1));
    return m;
}

void addWorld(const json& w)
{
    for (const auto& [svc, paths] : w.items())
    {
        auto& sv = S().world[svc];
        for (const auto& [p, ifs] : paths.items())
            for (const auto& [i, props] : ifs.items())
                sv[p][i] = parseProps(props);
    }
}

void addFault(const json& j)
{
    Fault f;
    f.dest = j.value("dest", "");
    f.path = j.value("path", "");
    f.iface = j.value("iface", "");
    f.member = j.value("member", "");
    f.arg0 = j.value("arg0", "");
    f.skip = j.value("skip", 0);
    f.count = j.value("count", -1);
    f.err = j.value("err", "");
    S().faults.push_back(f);
}

void runOp(const json& o);

json doClientCall(const std::string& dest, const std::string& path,
                  const std::string& iface, const std::string& member,
                  std::vector<Val> args)
{
    MsgData m;
    m.type = "method_call";
    m.dest = dest;
    m.path = path;
    m.iface = iface;
    m.member = member;
    m.args = std::move(args);
    try
    {
        auto r = route(m);
        json a = json::array();
        for (const auto& x : r->args)
            a.push_back(toJson(x));
        return {{"ok", true}, {"args", a}};
    }
    catch (const sdbusplus::exception_t& e)
    {
        return {{"ok", false}, {"err", e.what()}};
    }
    // std::exception from a property setter: sdbusplus turns it into an error
    // reply only for its own types; anything else escapes into sd-bus
}

void runOp(const json& o)
{
    const std::string op = o.at("op");
    Sim& s = S();
    if (op == "multi")
    {
        for (const auto& x : o.at("ops"))
            runOp(x);
    }
    else if (op == "set" || op == "signal")
    {
        auto props = parseProps(o.at("props"));
        const std::string path = o.at("path"), iface = o.at("iface");
        std::string svc = o.value("svc", "");
        if (op == "set")
        {
            for (const auto& [k, v] : props)
                s.world[svc][path][iface][k] = v;
        }
        if (o.value("signal", true))
            emitPropsChanged(svc, path, iface, props);
    }
    else if (op == "addobj")
    {
        const std::string svc = o.at("svc"), path = o.at("path");
        std::map<std::string, std::map<std::string, Val>> ifs;
        for (const auto& [i, p] : o.at("ifaces").items())
        {
            ifs[i] = parseProps(p);
            if (o.value("world", true))
                s.world[svc][path][i] = ifs[i];
        }
        if (o.value("signal", true))
            emitIfacesAdded(svc, o.value("mgr", "/"), path, ifs);
    }
    else if (op == "rmobj")
    {
        const std::string svc = o.at("svc"), path = o.at("path");
        std::vector<std::string> names;
        auto& ob = s.world[svc][path];
        if (o.contains("ifaces"))
            for (const auto& i : o.at("ifaces"))
                names.push_back(i);
        else
            for (const auto& [i, _] : ob)
                names.push_back(i);
        for (const auto& i : names)
            ob.erase(i);
        if (ob.empty())
            s.world[svc].erase(path);
        if (o.value("signal", true))
            emitIfacesRemoved(svc, o.value("mgr", "/"), path, names);
    }
    else if (op == "rmsvc")
    {
        s.world.erase(o.at("svc").get<std::string>());
    }
    else if (op == "world")
    {
        addWorld(o.at("world"));
    }
    else if (op == "call")
    {
        std::vector<Val> args;
        for (const auto& a : o.at("args"))
            args.push_back(parseVal(a.at(0).get<std::string>(), a.at(1)));
        event({"result",
               doClientCall(o.at("dest"), o.at("path"), o.at("iface"),
                            o.at("member"), args)});
    }
    else if (op == "ipmi")
    {
        std::vector<uint8_t> req = o.at("bytes");
        auto it = router().h.find({o.value("oen", oem::obmcOemNumber),
                                   o.value("cmd", uint8_t(4))});
        if (it == router().h.end())
        {
            event({"ipmi", "nohandler"});
            return;
        }
        // the request is copied into an exact-size heap block so that a read
        // past the end is not silently satisfied by neighbouring test data
        std::vector<uint8_t> rbuf(256, 0xAA);
        size_t len = req.size();
        std::vector<uint8_t> buf(req);
        buf.reserve(buf.size() ? buf.size() : 1);
        int cc = it->second(o.value("cmd", uint8_t(4)), buf.data(),
                            rbuf.data(), &len);
        json rep = json::array();
        for (size_t i = 0; i < 4; ++i)
            rep.push_back(rbuf[i]);
        event({"ipmi", cc, len, rep});
    }
    else if (op == "setsensor")
    {
        char a0[] = "setsensor";
        char* av[] = {a0, nullptr};
        int rc = setsensor_main(1, av);
        event({"setsensor", rc});
    }
    else if (op == "sig")
    {
        raise(o.at("n") == "TERM" ? SIGTERM : SIGHUP);
    }
    else if (op == "file")
    {
        putFile(o.at("path"), o.at("content"));
    }
    else if (op == "fault")
    {
        if (o.value("clear", false))
            s.faults.clear();
        else
            addFault(o);
    }
    else if (op == "nop")
    {}
    else
        throw std::runtime_error("unknown op " + op);
}

int64_t nextOpTime()
{
    Sim& s = S();
    if (s.nextOp >= s.ops.size())
        return std::numeric_limits<int64_t>::max();
    return s.ops[s.nextOp].at("t").get<int64_t>() * 1000;
}

int realSelect(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
    timespec ts{0, 0};
    if (tv)
    {
        ts.tv_sec = tv->tv_sec;
        ts.tv_nsec = tv->tv_usec * 1000;
    }
    return syscall(SYS_pselect6, n, r, w, e, tv ? &ts : nullptr, nullptr);
}

int simSelect(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
    Sim& s = S();
    fd_set sr, sw, se;
    if (r)
        sr = *r;
    if (w)
        sw = *w;
    if (e)
        se = *e;
    timeval z{0, 0};
    int rc = realSelect(n, r, w, e, &z);
    if (rc != 0)
        return rc;
    int64_t to = tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1;
    if (to == 0)
    {
        if (++s.idleSpin > 2000000)
        {
            writeRec({{"end", "livelock"}, {"t", s.now}});
            fflush(s.out);
            s.dead = true;
            _exit(3);
        }
        if (!s.ev.empty() || s.lateMode)
            observe(s.now, false);
        return 0;
    }
    s.idleSpin = 0;
    int64_t wake =
        to < 0 ? std::numeric_limits<int64_t>::max() : s.now + to;
    observe(to < 0 ? -1 : wake, true);
    s.lateMode = false;
    int64_t opT = nextOpTime();
    int64_t end = s.endUs;
    if (std::min(std::max(opT, s.now), wake) > end)
    {
        writeRec({{"end", "done"}, {"t", s.now}});
        fflush(s.out);
        s.dead = true;
        _exit(0);
    }
    if (opT < wake || (opT <= s.now))
    {
        if (opT > s.now)
            s.now = opT;
        size_t idx = s.nextOp++;
        s.cause = "op";
        s.causeInfo = idx;
        boost::asio::post(*s.io, [idx] { runOp(S().ops[idx]); });
        // a post from inside the reactor wakes it through its interrupter or
        // the scheduler's queue; report "nothing ready"
        if (r)
            *r = sr;
        if (w)
            *w = sw;
        if (e)
            *e = se;
        return realSelect(n, r, w, e, &z);
    }
    s.cause = "wake";
    s.causeInfo = nullptr;
    s.now = wake;
    if (!s.late.empty() && s.late.front().first <= wake)
    {
        s.now = wake + s.late.front().second;
        s.late.erase(s.late.begin());
        s.lateMode = true;
    }
    return 0;
}
} // namespace

// ---- interposed library entry points ----
namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
    return time_point(
        std::chrono::duration_cast<duration>(
            std::chrono::microseconds(S().sysBase + S().now)));
}
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(
        std::chrono::duration_cast<duration>(
            std::chrono::microseconds(S().steadyBase + S().now)));
}
} // namespace _V2
} // namespace chrono
} // namespace std

extern "C"
{
int select(int n, fd_set* r, fd_set* w, fd_set* e, timeval* tv)
{
    if (!S().running)
        return realSelect(n, r, w, e, tv);
    return simSelect(n, r, w, e, tv);
}

time_t time(time_t* t)
{
    time_t v = (S().sysBase + S().now) / 1000000;
    if (t)
        *t = v;
    return v;
}

int clock_gettime(clockid_t id, timespec* ts) noexcept
{
    int64_t us = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)
                     ? S().sysBase + S().now
                     : S().steadyBase + S().now;
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = (us % 1000000) * 1000;
    return 0;
}

static bool isSysfs(const char* p)
{
    return p && strstr(p, "/sys/") != nullptr &&
           S().running && !S().quiet;
}

static std::string rel(const std::string& p)
{
    const auto& sc = S().scratch;
    if (!sc.empty() && p.compare(0, sc.size(), sc) == 0)
        return p.substr(sc.size());
    return p;
}

static void noteOpen(int fd, const char* p, bool wr)
{
    if (!isSysfs(p))
        return;
    if (fd < 0)
    {
        event({wr ? "sysw!" : "sysr!", rel(p)});
        return;
    }
    if (wr)
        S().sysWriteFds[fd] = p;
    else
    {
        event({"sysr", rel(p)});
    }
}

static void noteClose(int fd)
{
    auto it = S().sysWriteFds.find(fd);
    if (it == S().sysWriteFds.end())
        return;
    std::string p = it->second;
    S().sysWriteFds.erase(it);
    event({"sysw", rel(p), readAll(p)});
}

static bool modeWrites(const char* m)
{
    return m && (strchr(m, 'w') || strchr(m, 'a') || strchr(m, '+'));
}

FILE* fopen(const char* p, const char* m)
{
    using fn = FILE* (*)(const char*, const char*);
    static fn real = (fn)dlsym(RTLD_NEXT, "fopen");
    std::string h;
    const char* q = redirect(p, h);
    FILE* f = real(q, m);
    noteOpen(f ? fileno(f) : -1, q, modeWrites(m));
    return f;
}
FILE* fopen64(const char* p, const char* m)
{
    using fn = FILE* (*)(const char*, const char*);
    static fn real = (fn)dlsym(RTLD_NEXT, "fopen64");
    std::string h;
    const char* q = redirect(p, h);
    FILE* f = real(q, m);
    noteOpen(f ? fileno(f) : -1, q, modeWrites(m));
    return f;
}
int fclose(FILE* f)
{
    using fn = int (*)(FILE*);
    static fn real = (fn)dlsym(RTLD_NEXT, "fclose");
    int fd = f ? fileno(f) : -1;
    auto it = S().sysWriteFds.find(fd);
    if (it != S().sysWriteFds.end())
    {
        fflush(f);
        noteClose(fd);
    }
    return real(f);
}
static int openImpl(const char* p, int fl, mode_t md)
{
    std::string h;
    const char* q = redirect(p, h);
    int fd = syscall(SYS_openat, AT_FDCWD, q, fl, md);
    if (!(fl & O_DIRECTORY))
        noteOpen(fd, q, (fl & O_ACCMODE) != O_RDONLY);
    return fd;
}
int open(const char* p, int fl, ...)
{
    va_list a;
    va_start(a, fl);
    mode_t md = va_arg(a, int);
    va_end(a);
    return openImpl(p, fl, md);
}
int open64(const char* p, int fl, ...)
{
    va_list a;
    va_start(a, fl);
    mode_t md = va_arg(a, int);
    va_end(a);
    return openImpl(p, fl, md);
}
// directories are listed through openat
static int openatImpl(int dir, const char* p, int fl, mode_t md)
{
    if (dir == AT_FDCWD)
        return openImpl(p, fl, md);
    return syscall(SYS_openat, dir, p, fl, md);
}
int openat(int dir, const char* p, int fl, ...)
{
    va_list a;
    va_start(a, fl);
    mode_t md = va_arg(a, int);
    va_end(a);
    return openatImpl(dir, p, fl, md);
}
int openat64(int dir, const char* p, int fl, ...)
{
    va_list a;
    va_start(a, fl);
    mode_t md = va_arg(a, int);
    va_end(a);
    return openatImpl(dir, p, fl, md);
}
int __openat_2(int dir, const char* p, int fl)
{
    return openatImpl(dir, p, fl, 0);
}
int close(int fd)
{
    noteClose(fd);
    return syscall(SYS_close, fd);
}
#define STATLIKE(name)                                                         \
    int name(const char* __restrict p, struct stat* __restrict b) noexcept     \
    {                                                                          \
        std::string h;                                                         \
        return syscall(SYS_newfstatat, AT_FDCWD, redirect(p, h), b, 0);        \
    }
STATLIKE(stat)
int lstat(const char* __restrict p, struct stat* __restrict b) noexcept
{
    std::string h;
    return syscall(SYS_newfstatat, AT_FDCWD, redirect(p, h), b,
                   AT_SYMLINK_NOFOLLOW);
}
int access(const char* p, int m) noexcept
{
    std::string h;
    return syscall(SYS_faccessat, AT_FDCWD, redirect(p, h), m);
}
DIR* opendir(const char* p)
{
    using fn = DIR* (*)(const char*);
    static fn real = (fn)dlsym(RTLD_NEXT, "opendir");
    std::string h;
    return real(redirect(p, h));
}
}

int main(int argc, char** argv)
{
    if (argc != 4)
    {
        fprintf(stderr, "usage: sim scenario.json out.ndjson scratchdir\n");
        return 2;
    }
    Sim& s = S();
    try
    {
        std::string txt = readAll(argv[1]);
        s.scen = json::parse(txt);
        s.out = ::fopen(argv[2], "w");
        if (!s.out)
            return 2;
        s.scratch = argv[3];
        mkdir(s.scratch.c_str(), 0755);
        mkdir((s.scratch + "/tmp").c_str(), 0755);
        setenv("TMPDIR", (s.scratch + "/tmp").c_str(), 1);
        if (chdir(s.scratch.c_str()) != 0)
            return 2;
        const json& sc = s.scen;
        s.endUs = sc.at("end").get<int64_t>() * 1000;
        if (sc.contains("sysbase_us"))
            s.sysBase = sc.at("sysbase_us");
        const json none = json::array();
        auto arr = [&](const char* k) -> const json& {
            return sc.contains(k) ? sc.at(k) : none;
        };
        for (const auto& d : arr("dirs"))
        {
            std::string p = subst(d.get<std::string>());
            mkParents(p + "/");
        }
        const json files = sc.value("files", json::object());
        for (const auto& [p, c] : files.items())
            putFile(p, c);
        addWorld(sc.value("world", json::object()));
        for (const auto& o : arr("ops"))
            s.ops.push_back(o);
        for (const auto& l : arr("late"))
            s.late.emplace_back(l.at(0).get<int64_t>() * 1000,
                                l.at(1).get<int64_t>() * 1000);
        for (const auto& n : arr("names"))
            s.names.push_back(n);
        for (const auto& n : arr("watch"))
            s.watch.push_back(subst(n.get<std::string>()));
        for (const auto& f : arr("faults"))
            addFault(f);
        s.recordCalls = sc.value("calls", true);
    }
    catch (const std::exception& e)
    {
        fprintf(stderr, "sim: bad scenario: %s\n", e.what());
        return 2;
    }
    std::vector<std::string> args{"swampd"};
    const json argvj = s.scen.value("argv", json::array());
    for (const auto& a : argvj)
        args.push_back(subst(a.get<std::string>()));
    std::vector<char*> av;
    for (auto& a : args)
        av.push_back(a.data());
    av.push_back(nullptr);

    s.errfd = memfd_create("err", MFD_CLOEXEC);
    s.outfd = memfd_create("out", MFD_CLOEXEC);
    fflush(stdout);
    fflush(stderr);
    if (!getenv("SIM_NOCAPTURE"))
    {
        dup2(s.outfd, 1);
        dup2(s.errfd, 2);
    }
    else
    {
        s.errfd = s.outfd = -1;
    }
    on_exit(onExitHook, nullptr);
    std::set_terminate(onTerminate);
    for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
        signal(sg, crashSig);
    {
        // CPU-time limit: a hang is a finding, a slow machine is not
        int lim = s.scen.value("cpu_limit", 60);
        itimerval it{};
        it.it_value.tv_sec = lim;
        signal(SIGVTALRM, crashSig);
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
    }
    s.ev = json::array();
    s.running = true;
    int rc = swampd_main((int)args.size(), av.data());
    exit(rc);
}
