#pragma once
#ifndef ROTOR_API
#define ROTOR_API
#endif
