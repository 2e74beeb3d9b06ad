#include "../leak.hpp"
PBT_STATIC([] {
    leak::add("L04", 16000, 600000, "the database and the raster program", {"G01", "G02", "G03", "G04", "X01"});
});
