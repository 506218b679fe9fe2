#pragma once
#define ELEMENTS_API
#define ELEMENTS_EXPORT
#define ELEMENTS_IMPORT
#define ELEMENTS_LOCAL
#define ELEMENTS_HIDDEN
