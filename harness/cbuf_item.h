#include "common/circular_buffer.h"
namespace vf { struct Elem { ~Elem(); long a, b, c; }; }
