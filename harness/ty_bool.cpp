#include "types_impl.h"
const TypeOps& OpsBool()
{
    static const TypeOpsImpl<bool> o("bool", {false, true}, {"false", "true"}, 0, false, true);
    return o;
}
