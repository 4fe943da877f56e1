#pragma once
#include <smooth/core.hpp>
