#define ITEM_BYTES 3
#include "arrays.cpp"
