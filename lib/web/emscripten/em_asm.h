#include "../emscripten.h"
