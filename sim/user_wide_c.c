#include <hawktracer/core_events.h>
#include <hawktracer/event_macros_impl.h>
#include "user_wide.h"
