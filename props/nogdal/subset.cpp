#include "../raster/subset.cpp"
