// Stand-in for the header cmake generates.
#pragma once
#define LIGHTSTEP_VERSION "0.0.0"
