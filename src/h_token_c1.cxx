#include "h_token.h"
void tk::entries_c1(Entries &v) { ALL1(COLL) }
