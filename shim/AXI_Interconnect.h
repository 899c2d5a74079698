// Stand-in for the headers of the absent axi-interconnect-kit submodule: opaque
// types, so that sources including SimCpu.h compile.  No contract uses them.
#pragma once
#include <cstdint>
namespace axi_interconnect { struct AXI_Interconnect {}; struct AXI_Router_AXI4 {}; }
namespace sim_ddr { struct SimDDR {}; }
namespace mmio { struct MMIO_Bus_AXI4 {}; struct UART16550_Device { UART16550_Device(uint32_t) {} }; }
#ifndef MMIO_RANGE_BASE
#define MMIO_RANGE_BASE 0x10000000u
#endif
