#pragma once
#include "simwx.h"
