#include "engine.h"
#include "payload.h"
#include "arki/libconfig.h"
#include "arki/nag.h"
#include "arki/runtime.h"
#include "arki/types.h"

namespace arki {
void init();
}

void vf_process_init() {}

int main(int argc, char** argv)
{
    setenv("TZ", "UTC", 1);
    unsetenv("ARKI_ALIASES");
    unsetenv("ARKI_DEBUG");
    arki::nag::init(false, false, true);
    arki::init();
    vf::setup_scanners();
    return vf::driver_main(argc, argv);
}
