#pragma once
#include <impl/scalars.h>
