#define SIMXX_MAIN
#include "../sim/simxx.hpp"
#include <cmrc/cmrc.hpp>
namespace cmrc {
namespace assets { embedded_filesystem get_filesystem() { return {}; } }
namespace testImages { embedded_filesystem get_filesystem() { return {}; } }
}
