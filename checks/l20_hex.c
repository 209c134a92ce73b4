#include "hex_decode.h"
bool hd(const char *h, uint8_t **raw, size_t *len) { return hex_decode(h, raw, len); }
