#include "../raster/reading.cpp"
