#pragma once
#include "machine.h"
#include "hook.h"
// variants named in VP_VARIANTS="name=path;name=path", loaded on first use
std::vector<Variant>& variants();
