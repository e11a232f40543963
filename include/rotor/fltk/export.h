#pragma once
#ifndef ROTOR_FLTK_API
#define ROTOR_FLTK_API
#endif
