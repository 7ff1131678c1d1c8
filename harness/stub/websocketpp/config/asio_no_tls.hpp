#pragma once
#include "../server.hpp"
