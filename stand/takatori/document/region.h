#pragma once
#include "document.h"
