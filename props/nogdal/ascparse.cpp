#include "../raster/ascparse.cpp"
