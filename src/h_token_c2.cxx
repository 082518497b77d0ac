#include "h_token.h"
void tk::entries_c2(Entries &v) { ALL2(COLL) }
