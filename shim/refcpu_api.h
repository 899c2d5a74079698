// Stand-in for a header of the absent GenSimpoint submodule.
#pragma once
