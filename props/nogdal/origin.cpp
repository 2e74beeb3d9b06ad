#include "../raster/origin.cpp"
