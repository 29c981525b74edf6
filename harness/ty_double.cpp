#include "types_impl.h"
const TypeOps& OpsDouble()
{
    static const TypeOpsImpl<double> o("double", {-1e6, -2.5, 0.0, 0.25, 1.0, 1.5, 3e8}, {"-1000000.000000", "-2.500000", "0.000000", "0.250000", "1.000000", "1.500000", "300000000.000000"}, 2, false, true);
    return o;
}
