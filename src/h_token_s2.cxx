#include "h_token.h"
void tk::entries_s2(Entries &v) { FIELDS2(STRUCT0) }
