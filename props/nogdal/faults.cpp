#include "../raster/faults.cpp"
