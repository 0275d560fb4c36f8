#pragma once
#include <impl/statements.h>
