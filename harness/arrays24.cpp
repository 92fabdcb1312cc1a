#define ITEM_BYTES 24
#include "arrays.cpp"
