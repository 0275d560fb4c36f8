#pragma once
namespace takatori::type { class data; }
