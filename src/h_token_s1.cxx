#include "h_token.h"
#define D64 STRUCT0_D64
void tk::entries_s1(Entries &v) { FIELDS1(STRUCT0) }
