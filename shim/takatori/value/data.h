#pragma once
namespace takatori::value { class data; }
