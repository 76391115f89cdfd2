#include "ngtcp2.h"
