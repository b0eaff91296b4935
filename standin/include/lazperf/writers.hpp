#pragma once
#include "header.hpp"
#include "lazperf.hpp"
#include "vlr.hpp"
