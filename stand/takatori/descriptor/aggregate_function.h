#pragma once
#include "element.h"
