#include "../raster/refuse.cpp"
