// Stand-in for the OpenTracing header (not installed here).
#pragma once
#define OPENTRACING_VERSION "1.5.1"
#define OPENTRACING_ABI_VERSION "2"
