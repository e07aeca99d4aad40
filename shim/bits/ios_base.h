#pragma once
#include "vf_streams.hpp"
