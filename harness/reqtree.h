// Complex requests: trees of request objects of every type combination.
#pragma once
#include "types.h"
std::unique_ptr<AnyRequest> CombineRequests(const AnyRequest& a, const AnyRequest& b, bool isAnd, bool viaOperator);
Res RunRequest(SV sv, const AnyRequest& r, mvlt::VaultRecordSet& out);
std::unique_ptr<AnyRequest> CopyRequest(const AnyRequest& r, int how);
