#pragma once
#include <impl/relations.h>
