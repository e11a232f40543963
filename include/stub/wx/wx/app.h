#pragma once
#include "event.h"
class wxAppConsole : public wxEvtHandler {};
inline wxAppConsole *&vp_wx_app() { static wxAppConsole *a = nullptr; return a; }
#define wxTheApp vp_wx_app()
