#pragma once
#include "factory.h"
