/* Force-included into every C++ file (as the project's own build does here):
   headers cdec relies on getting indirectly. */
#include <math.h>
#include <algorithm>
#include <boost/serialization/split_member.hpp>
