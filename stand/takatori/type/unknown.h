#pragma once
#include <impl/types.h>
