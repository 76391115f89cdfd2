#include "ssl.h"
