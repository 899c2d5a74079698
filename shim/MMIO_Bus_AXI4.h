// Stand-in for a header of the absent axi-interconnect-kit submodule.
#pragma once
#include "AXI_Interconnect.h"
