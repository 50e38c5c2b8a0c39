#include "client.h"
void register3() {}
