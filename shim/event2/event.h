// A stand-in for libevent with virtual time: the part nebula-common uses.
#pragma once
#include <sys/time.h>
#include <cstdint>
struct event; struct event_base;
using event_callback_fn = void (*)(int, short, void*);
#define EV_TIMEOUT 0x01
#define EV_READ 0x02
#define EV_WRITE 0x04
#define EV_PERSIST 0x10
extern "C" {
event_base* event_base_new(void);
void event_base_free(event_base*);
int event_base_dispatch(event_base*);
int event_base_loopexit(event_base*, const timeval*);
int event_base_loopbreak(event_base*);
event* event_new(event_base*, int fd, short what, event_callback_fn cb, void* arg);
void event_free(event*);
int event_add(event*, const timeval*);
int event_del(event*);
void event_active(event*, int, short);
}
#define evtimer_new(b, cb, arg) event_new((b), -1, 0, (cb), (arg))
#define evtimer_add(ev, tv) event_add((ev), (tv))
#define evtimer_del(ev) event_del(ev)
#define evtimer_free(ev) event_free(ev)
