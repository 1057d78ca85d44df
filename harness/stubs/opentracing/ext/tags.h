// Stand-in for the OpenTracing header (not installed here).
#pragma once
#include "../string_view.h"
namespace opentracing { namespace ext {
const string_view sampling_priority = "sampling.priority";
}}
