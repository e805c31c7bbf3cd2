// Preloaded into the simulation program: it dies at the VKILL_AT-th file operation below VKILL_ROOT.
#include "fault.h"
#include <stdlib.h>
__attribute__((constructor)) static void killer_init()
{
	const char* r = getenv("VKILL_ROOT");
	const char* a = getenv("VKILL_AT");
	if(!r || !a) return;
	fault::root = r;
	fault::at = atoi(a);
	fault::torn = getenv("VKILL_TORN") ? atoi(getenv("VKILL_TORN")) : 0;
	fault::action = fault::die;
	fault::armed = true;
}
