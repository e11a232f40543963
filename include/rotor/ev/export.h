#pragma once
#ifndef ROTOR_EV_API
#define ROTOR_EV_API
#endif
