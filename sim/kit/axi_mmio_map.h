#pragma once
#ifndef MMIO_RANGE_BASE
#define MMIO_RANGE_BASE 0x10000000u
#define MMIO_RANGE_SIZE 0x00001000u
#endif
