#pragma once
#include "CCfits/CCfits"
