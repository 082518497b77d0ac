#include "h_token.h"
void tk::entries_l1(Entries &v) { ALL1(LOOSE) }
