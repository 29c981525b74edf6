#include "types_impl.h"
const TypeOps& OpsInt()
{
    static const TypeOpsImpl<int> o("int", {INT32_MIN, -7, 0, 1, 2, 3, 10, INT32_MAX}, {"-2147483648", "-7", "0", "1", "2", "3", "10", "2147483647"}, 2, false, true);
    return o;
}
