#include "h_token.h"
void tk::entries_n2(Entries &v) { FIELDS2(STRUCT1) }
