#include "types_impl.h"
const TypeOps& OpsU16()
{
    static const TypeOpsImpl<std::uint16_t> o("uint16", {0, 1, 2, 9, 32768, 65535}, {"0", "1", "2", "9", "32768", "65535"}, 0, false, true);
    return o;
}
