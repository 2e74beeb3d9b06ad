// The raster program, with its main function under another name.
#define main mask_rasterio_main
#include "apps/mask_rasterio.cpp"
