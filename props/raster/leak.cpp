#include "../leak.hpp"
PBT_STATIC([] {
    leak::add("L03", 14000, 300000, "rasters", {"R01", "R02", "R03", "R04", "R05", "R06", "R07", "R08", "R09", "R10", "R11", "R12", "R13", "R14", "R15", "R16", "R17"});
});
