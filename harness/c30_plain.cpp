#define h2d h2d_plain
#define CFG plain
#include "c30_body.hpp"
