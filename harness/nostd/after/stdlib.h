// What the standard library finds when it asks for the C header after its own.
#include "/usr/include/stdlib.h"
