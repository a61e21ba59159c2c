#include "../../scalfmm_standin.hpp"
