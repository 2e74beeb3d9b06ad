#include "../raster/output.cpp"
