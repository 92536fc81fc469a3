#pragma once
#include <sundials/sundials_nvector.h>
