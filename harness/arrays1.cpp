#define ITEM_BYTES 1
#include "arrays.cpp"
