#include "h_token.h"
void tk::entries_l2(Entries &v) { ALL2(LOOSE) }
