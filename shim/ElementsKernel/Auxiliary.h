#pragma once
#include <boost/filesystem.hpp>
namespace Elements {
inline boost::filesystem::path getAuxiliaryPath(const std::string& p) { return p; }
}
