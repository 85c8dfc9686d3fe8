#pragma once
#include <cstdarg>
#include <cstdio>
#include <string>
namespace fakebus
{
void plog(const std::string& msg);
}
namespace phosphor::logging
{
enum class level
{
    EMERG,
    ALERT,
    CRIT,
    ERR,
    WARNING,
    NOTICE,
    INFO,
    DEBUG,
};
template <typename... T>
std::string entry(const char* fmt, T... a)
{
    char buf[512];
    std::snprintf(buf, sizeof(buf), fmt, a...);
    return buf;
}
template <level L, typename... E>
void log(const char* msg, const E&... e)
{
    std::string s = msg;
    ((s += " ", s += e), ...);
    fakebus::plog(s);
}
template <level L, typename... E>
void log(const std::string& msg, const E&... e)
{
    log<L>(msg.c_str(), e...);
}
} // namespace phosphor::logging
