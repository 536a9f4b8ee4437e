// Minimal stand-in for the parts of wxWidgets rotor uses: an event loop with CallAfter and one-shot timers.
// (The GUI toolkit itself is not under test; the rotor::wx backend compiled against it is the real one.)
#pragma once
#include <functional>
#include <memory>
#include <utility>

struct wxSimLoop;
struct wxSimPending;

class wxObject {
  public:
    virtual ~wxObject() {}
};

class wxEvtHandler : public wxObject {
  public:
    wxEvtHandler();
    virtual ~wxEvtHandler();
    template <typename F> void CallAfter(F fn) { QueueSim(std::function<void()>(std::move(fn))); }

  private:
    void QueueSim(std::function<void()> fn);
};

class wxTimer : public wxEvtHandler {
  public:
    wxTimer();
    virtual ~wxTimer();
    bool Start(int ms = -1, bool oneShot = false);
    bool StartOnce(int ms = -1) { return Start(ms, true); }
    void Stop();
    bool IsRunning() const { return armed; }
    virtual void Notify();

  private:
    bool armed = false;
    friend struct wxSimLoop;
};

class wxAppConsole : public wxEvtHandler {
  public:
    virtual ~wxAppConsole() {}
    virtual bool OnInit() { return true; }
};
extern wxAppConsole *wxTheApp;
