// geometry read from files
#define GEOM_FILES
#include "geom.cpp"
