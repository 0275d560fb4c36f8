#pragma once
namespace yugawara::util { enum class ternary { no, yes, unknown }; }
