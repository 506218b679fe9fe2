#pragma once
#if __has_include(<gmock/gmock.h>)
#include <gmock/gmock.h>
#endif
