#include "../leak.hpp"
PBT_STATIC([] {
    leak::add("L01", 60000, 2000000, "strings, times, arrays or statistics", {"S01", "S02", "S03", "S04", "B01", "T01", "T02", "T03", "A01", "A02", "M01"});
});
