#pragma once
#ifndef BOOST_VERSION
#define BOOST_VERSION 108300
#endif
