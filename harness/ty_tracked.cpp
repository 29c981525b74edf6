#include "types_impl.h"
long long Tracked::live = 0;
const TypeOps& OpsTracked()
{
    static const TypeOpsImpl<Tracked> o("Tracked", {Tracked(-3), Tracked(0), Tracked(1), Tracked(3), Tracked(6), Tracked(7)}, {"T-3", "T0", "T1", "T3", "T6", "T7"}, 1, true, true);
    return o;
}
