// Stand-in for the header qibuild/cmake generates (almath/api.h): the harness
// links the library statically, so that no export attribute is needed.
#pragma once
#ifndef ALMATH_API
#define ALMATH_API
#endif
#ifndef ALMATH_DEPRECATED
#define ALMATH_DEPRECATED
#endif
