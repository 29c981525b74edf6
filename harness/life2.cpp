// The second translation unit with static objects of P40
#include "life.h"

namespace life
{
    Host<false> gTwo(2);
    Host<true> gThree(3);
}
