#pragma once
#include "print_support.h"
