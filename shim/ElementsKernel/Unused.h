#pragma once
#define ELEMENTS_UNUSED __attribute__((unused))
