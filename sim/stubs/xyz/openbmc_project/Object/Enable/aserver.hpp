#pragma once
#include <fakebus.hpp>

