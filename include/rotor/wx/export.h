#pragma once
#ifndef ROTOR_WX_API
#define ROTOR_WX_API
#endif
