#pragma once
#ifndef ASIO_VERSION
#define ASIO_VERSION 102800
#endif
