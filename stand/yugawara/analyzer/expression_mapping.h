#pragma once
#include "expression_analyzer.h"
