#pragma once
#include <fakebus.hpp>

#include <ipmid/api-types.hpp>
