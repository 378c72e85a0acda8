// Stand-in for the FreeRTOS kernel: the public API the wrappers in port/freertos use, on one simulated task and a
// simulated clock. Objects remember how they were made and every misuse of a handle (unknown, already deleted,
// overwritten control block) is reported. A wait that cannot be met yet advances the clock to the next scheduled
// interrupt (rtos::at), then to the deadline.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#ifndef configTICK_RATE_HZ
#define configTICK_RATE_HZ 1000
#endif
#ifndef RTOS_TICK_TYPE
#define RTOS_TICK_TYPE uint32_t
#endif
#define configSUPPORT_STATIC_ALLOCATION 1
#define configSUPPORT_DYNAMIC_ALLOCATION 1
#define configUSE_TASK_NOTIFICATIONS 1
#define configUSE_APPLICATION_TASK_TAG 1
#define configUSE_TRACE_FACILITY 0
#define configQUEUE_REGISTRY_SIZE 4
#define configSTACK_DEPTH_TYPE uint32_t
#define portUSING_MPU_WRAPPERS 0

#define tskKERNEL_VERSION_NUMBER "V10.4.3"
#define tskKERNEL_VERSION_MAJOR 10
#define tskKERNEL_VERSION_MINOR 4
#define tskKERNEL_VERSION_BUILD 3

typedef RTOS_TICK_TYPE TickType_t;
typedef long BaseType_t;
typedef unsigned long UBaseType_t;
typedef uint32_t StackType_t;
typedef TickType_t EventBits_t;
#define portMAX_DELAY ((TickType_t)-1)
#define portTICK_PERIOD_MS ((TickType_t)1000 / configTICK_RATE_HZ)
#define portSTACK_TYPE StackType_t
#define pdFALSE ((BaseType_t)0)
#define pdTRUE ((BaseType_t)1)
#define pdPASS pdTRUE
#define pdFAIL pdFALSE

// A control block: what a handle points at. For objects in user supplied storage it lies in that storage.
struct RtosCtl { uint64_t magic; unsigned serial; unsigned pad; };
struct QueueDefinition : RtosCtl {};
struct EventGroupDef_t : RtosCtl {};
struct tmrTimerControl : RtosCtl {};
struct tskTaskControlBlock : RtosCtl {};
typedef QueueDefinition* QueueHandle_t;
typedef QueueHandle_t SemaphoreHandle_t;
typedef EventGroupDef_t* EventGroupHandle_t;
typedef tmrTimerControl* TimerHandle_t;
typedef tskTaskControlBlock* TaskHandle_t;
struct StaticQueue_t { QueueDefinition c; char rest[40]; };
typedef StaticQueue_t StaticSemaphore_t;
struct StaticEventGroup_t { EventGroupDef_t c; char rest[16]; };
struct StaticTimer_t { tmrTimerControl c; char rest[24]; };
struct StaticTask_t { tskTaskControlBlock c; char rest[64]; };
typedef void (*TimerCallbackFunction_t)(TimerHandle_t);
typedef void (*PendedFunction_t)(void*, uint32_t);
typedef void (*TaskFunction_t)(void*);
typedef BaseType_t (*TaskHookFunction_t)(void*);
enum eNotifyAction { eNoAction, eSetBits, eIncrement, eSetValueWithOverwrite, eSetValueWithoutOverwrite };
enum eTaskState { eRunning, eReady, eBlocked, eSuspended, eDeleted, eInvalid };

namespace {
namespace rtos {

struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
enum class Kind { Binary, Counting, Mutex, Recursive, Queue, Events, Timer, Task };

struct Obj {
    Kind kind; bool is_static, live = true; void* ctl; unsigned serial;
    // semaphores
    UBaseType_t count = 0, max = 0, depth = 0; TaskHandle_t holder = nullptr;
    // queues
    size_t item = 0; uint8_t* storage = nullptr; std::deque<std::vector<uint8_t>> q;
    // event groups
    EventBits_t bits = 0;
    // timers
    std::string name; TickType_t period = 0, expiry = 0; bool reload = false, active = false; void* id = nullptr;
    TimerCallbackFunction_t cb = nullptr;
    // tasks
    TaskFunction_t code = nullptr; void* arg = nullptr; uint32_t stack = 0; UBaseType_t prio = 0; void* stack_at = nullptr;
    uint32_t note = 0; bool pending = false; eTaskState state = eReady; TaskHookFunction_t tag = nullptr;
};

struct Kernel {
    uint64_t now = 0;                                        // ticks since start, wider than TickType_t
    std::vector<std::unique_ptr<Obj>> objs;
    std::multimap<uint64_t, std::function<void()>> irqs;
    TaskHandle_t current = nullptr;
    unsigned yields = 0;
    std::string last;                                        // the last call, for results that carry no value
    uint64_t arg = 0, arg2 = 0; void* ptr = nullptr; BaseType_t* woken = nullptr;
    bool in_isr = false;
    std::string bad;                                         // what went wrong where nothing may be thrown
    int fail_creates = 0;
};
static Kernel* K = nullptr;

static const uint64_t LIVE = 0x4652544f534c4956ull, DEAD = 0x4652544f53444541ull;

template <class Ctl> Obj& make(Kind k, Ctl* at, bool is_static) {
    auto o = std::unique_ptr<Obj>(new Obj());
    o->kind = k; o->is_static = is_static; o->serial = unsigned(K->objs.size());
    o->ctl = at; at->magic = LIVE; at->serial = o->serial;
    K->objs.push_back(std::move(o));
    return *K->objs.back();
}
template <class Ctl> Obj& get(Ctl* h, const char* what) {
    if (!h) throw Error(std::string(what) + ": no handle");
    bool known = false;
    for (auto& o : K->objs) if (o->ctl == h && o->live) known = true;
    if (!known) throw Error(std::string(what) + ": not a handle of a live object");
    if (h->magic != LIVE || h->serial >= K->objs.size()) throw Error(std::string(what) + ": control block overwritten");
    return *K->objs[h->serial];
}
template <class Ctl> void destroy(Ctl* h, Obj& o) {
    o.live = false; h->magic = DEAD;
    if (!o.is_static) delete h;
}
inline void irq_point() {
    while (!K->irqs.empty() && K->irqs.begin()->first <= K->now) {
        auto f = K->irqs.begin()->second; K->irqs.erase(K->irqs.begin());
        bool was = K->in_isr; K->in_isr = true; f(); K->in_isr = was;
    }
}
inline void advance_to(uint64_t t) {
    while (!K->irqs.empty() && K->irqs.begin()->first <= t) { K->now = std::max(K->now, K->irqs.begin()->first); irq_point(); }
    K->now = std::max(K->now, t);
}
inline void at(uint64_t tick, std::function<void()> f) { K->irqs.emplace(tick, std::move(f)); }
struct Deadlock : Error { using Error::Error; };
// Blocks until ready() or the timeout.
template <class F> bool wait(TickType_t ticks, F ready) {
    irq_point();
    if (ready()) return true;
    if (ticks == 0) return false;
    bool forever = ticks == portMAX_DELAY;
    uint64_t deadline = K->now + ticks;
    while (!K->irqs.empty() && (forever || K->irqs.begin()->first <= deadline)) {
        K->now = std::max(K->now, K->irqs.begin()->first); irq_point();
        if (ready()) return true;
    }
    if (forever) throw Deadlock("waits for ever");
    K->now = deadline;
    return ready();
}
inline Obj& sem(QueueHandle_t h, const char* w) { Obj& o = get(h, w); if (o.kind == Kind::Queue) throw Error(std::string(w) + ": a queue, not a semaphore"); return o; }
inline Obj& que(QueueHandle_t h, const char* w) { Obj& o = get(h, w); if (o.kind != Kind::Queue) throw Error(std::string(w) + ": a semaphore, not a queue"); return o; }
inline void note(const char* c, uint64_t a = 0, void* p = nullptr) { K->last = c; K->arg = a; K->ptr = p; }
// Destructors call this: what is wrong is told later.
template <class F> void quietly(F f) { try { f(); } catch (Error& e) { if (K->bad.empty()) K->bad = e.what(); } }
inline void task_only(const char* w) { if (K->in_isr) throw Error(std::string(w) + ": called from an interrupt"); }

}  // rtos

#include "kernel_api.h"
}  // namespace
