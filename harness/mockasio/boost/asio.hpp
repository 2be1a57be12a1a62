#pragma once
#include "boost/version.hpp"
#include "../asio.hpp"
namespace boost { namespace asio = ::asio; namespace system { using error_code = ::asio::error_code; using system_error = ::asio::system_error; } }
