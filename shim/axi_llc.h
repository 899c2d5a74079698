// Stand-in for the last-level-cache types of the absent axi-interconnect-kit submodule (types only).
#pragma once
namespace axi_interconnect { struct AXI_LLC_LookupIn_t {}; struct AXI_LLCConfig {}; struct AXI_LLC_TableOut_t {}; struct AXI_LLCPerfCounters_t {}; struct ReadMasterPort_t; }
