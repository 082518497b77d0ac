#include "h_token.h"
#define D64 STRUCT1_D64
void tk::entries_n1(Entries &v) { FIELDS1(STRUCT1) }
