// used only where the generated file is missing in /repo
#ifndef IEOMPP_VERSION_HPP_
#define IEOMPP_VERSION_HPP_
#include <string>
namespace ieompp
{
    constexpr auto version = "0.0.0-unknown";
}
#endif
