#pragma once
#include <cstdint>
namespace oem
{
enum Cmd
{
    gpioCmd = 0,
    i2cCmd = 2,
    flashCmd = 3,
    fanManualCmd = 4,
    sysCmd = 0x32,
};
} // namespace oem
