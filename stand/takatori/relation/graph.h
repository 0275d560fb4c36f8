#pragma once
#include "expression.h"
