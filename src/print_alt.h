#pragma once
char *alt_d2a_accurate(const double &v, char *b);
char *alt_d2a_fast(const double &v, char *b);
