#include "../raster/memory.cpp"
