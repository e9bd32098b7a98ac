// the broker's main function asks for the host name only
#pragma once
#include <string>
namespace boost { namespace asio { namespace ip { inline std::string host_name() { return "host"; } } } }
