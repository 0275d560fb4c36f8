#pragma once
#include <impl/catalog.h>
