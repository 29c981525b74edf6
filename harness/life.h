#pragma once
// P40: objects of every storage duration, used at every moment of a program's life.
#include "MVault.h"

namespace life
{
    struct Parts { mvlt::Vault* v; mvlt::VaultRecordSet* s; mvlt::VaultRecordRef* r; };

    void Born(int slot, const Parts& parts);   // the members exist: runs the segment "c<slot>"
    void Dies(int slot);                       // the members still exist: runs the segment "d<slot>"

    // the vault dies last
    template <bool VaultFirst>
    struct Host
    {
        int slot;
        mvlt::Vault v;
        mvlt::VaultRecordSet s;
        mvlt::VaultRecordRef r;
        explicit Host(int i) : slot(i) { Born(slot, Parts{ &v, &s, &r }); }
        ~Host() { Dies(slot); }
    };

    // the vault dies first
    template <>
    struct Host<false>
    {
        int slot;
        mvlt::VaultRecordRef r;
        mvlt::VaultRecordSet s;
        mvlt::Vault v;
        explicit Host(int i) : slot(i) { Born(slot, Parts{ &v, &s, &r }); }
        ~Host() { Dies(slot); }
    };
}
