#include "../raster/history.cpp"
