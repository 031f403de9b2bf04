// Asio without Boost is not installed; Boost's is the same library.
#ifndef VERIF_ASIO_HPP
#define VERIF_ASIO_HPP
#include <boost/asio.hpp>
namespace asio = boost::asio;
#endif
