#include "../leak.hpp"
PBT_STATIC([] {
    leak::add("L02", 10000, 200000, "paths and files", {"F01", "F02", "F03"});
});
