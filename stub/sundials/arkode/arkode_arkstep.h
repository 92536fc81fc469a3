#pragma once
#include <arkode/arkode_erkstep.h>
