#include "common/circular_buffer_range.h"
namespace vf { struct Item { long a, b, c; }; }
