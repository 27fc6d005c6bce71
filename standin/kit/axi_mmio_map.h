#pragma once
#include "config.h"
#ifndef MMIO_RANGE_BASE
#define MMIO_RANGE_BASE CONFIG_AXI_KIT_MMIO_BASE
#endif
