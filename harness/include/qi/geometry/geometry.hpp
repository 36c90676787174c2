// Stand-in for the header libqi's idl compiler makes from qi/geometry/geometry.idl.qi
// (libqi is not installed): the three structures the library's headers use.
#pragma once
#include <cassert>
#include <cmath>
#include <iostream>
namespace qi { namespace geometry {
struct Vector3 { double x, y, z; };
struct Quaternion { double x, y, z, w; };
struct Transform { Quaternion rotation; Vector3 translation; };
} }
