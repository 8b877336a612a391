// Included before everything else when the analyzer's sources are compiled for the check: the analyzer asks for room for 10^8
// objects at once, which would cost 100 ms per trace.  Reserving is only a hint, so large requests are cut down.
#ifdef __cplusplus
#include <bits/stdc++.h>
#if __has_include("dataStructure/robin_hood.h")
#include "dataStructure/robin_hood.h"
#endif
#define reserve(n) reserve((n) > 100000 ? (size_t)64 : (size_t)(n))
#endif
