// Q07: an unaggregated lookup over a set of files answers with the records of every file.
#define AGG 0
#include "fileset.hpp"
