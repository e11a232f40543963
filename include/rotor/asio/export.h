#pragma once
#ifndef ROTOR_ASIO_API
#define ROTOR_ASIO_API
#endif
