#pragma once
#ifndef ROTOR_THREAD_API
#define ROTOR_THREAD_API
#endif
