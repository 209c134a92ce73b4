// Q06: an aggregated lookup over a set of files answers as their merge would.
#define AGG 1
#include "fileset.hpp"
