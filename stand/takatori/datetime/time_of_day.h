#pragma once
#include <impl/datetime.h>
