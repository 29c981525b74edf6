#include "types_impl.h"
const TypeOps& OpsString()
{
    static const TypeOpsImpl<std::string> o("string",
        {"", " x", "A,B", "a", "aa", "b", "long string value that is not stored inline, at all", "q\"uo\nte"},
        {"", " x", "A,B", "a", "aa", "b", "long string value that is not stored inline, at all", "q\"uo\nte"}, 0, true, true);
    return o;
}
