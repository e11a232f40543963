#pragma once
#include "event.h"
class wxTimer;
namespace vp_wx { struct timers_t { virtual void start(wxTimer *, int ms, bool once) = 0; virtual void stop(wxTimer *) = 0; virtual bool running(const wxTimer *) = 0; virtual ~timers_t() = default; }; extern timers_t *TIMERS; }
class wxTimer : public wxEvtHandler {
    int ms = 0; bool once = true;
  public:
    wxTimer() = default;
    wxTimer(const wxTimer &) = delete;
    ~wxTimer() override { vp_wx::TIMERS->stop(this); }
    virtual bool Start(int milliseconds = -1, bool oneShot = false) { if (milliseconds != -1) ms = milliseconds; once = oneShot; vp_wx::TIMERS->start(this, ms, once); return true; }
    bool StartOnce(int milliseconds = -1) { return Start(milliseconds, true); }
    virtual void Stop() { vp_wx::TIMERS->stop(this); }
    virtual void Notify() {}
    bool IsRunning() const { return vp_wx::TIMERS->running(this); }
    int GetInterval() const { return ms; }
    bool IsOneShot() const { return once; }
};
constexpr bool wxTIMER_CONTINUOUS = false, wxTIMER_ONE_SHOT = true;
