#pragma once
#include <ipmid/api-types.hpp>
#include <ipmid/iana.hpp>
#include <cstddef>
#include <cstdint>
#include <functional>
namespace oem
{
using Handler = std::function<ipmi::Cc(std::uint8_t, const std::uint8_t*,
                                       std::uint8_t*, std::size_t*)>;
class Router
{
  public:
    virtual ~Router() = default;
    virtual void activate() = 0;
    virtual void registerHandler(Number oen, std::uint8_t cmd,
                                 Handler handler) = 0;
};
Router* mutableRouter();
} // namespace oem
