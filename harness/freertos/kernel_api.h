// The C API, on rtos::K. Everything has internal linkage, so that two configurations can be linked together.
using rtos::K; using rtos::Kind; using rtos::Obj;

// ---- ticks and tasks
inline TickType_t xTaskGetTickCount() { return TickType_t(K->now); }
inline void vTaskDelay(TickType_t t) { rtos::task_only("vTaskDelay"); rtos::note("vTaskDelay", t); rtos::advance_to(K->now + t); }
inline void taskYIELD() { ++K->yields; }
inline TaskHandle_t xTaskGetCurrentTaskHandle() { return K->current; }
inline char* pcTaskGetName(TaskHandle_t h) { return const_cast<char*>(rtos::get(h, "pcTaskGetName").name.c_str()); }
inline Obj& rtos_task(Obj& o, TaskFunction_t f, const char* name, uint32_t depth, void* arg, UBaseType_t prio) {
    o.code = f; o.name = name; o.stack = depth; o.arg = arg; o.prio = prio; return o;
}
inline BaseType_t xTaskCreate(TaskFunction_t f, const char* name, uint32_t depth, void* arg, UBaseType_t prio, TaskHandle_t* out) {
    if (K->fail_creates) { --K->fail_creates; return -1; }
    auto h = new tskTaskControlBlock; rtos_task(rtos::make(Kind::Task, h, false), f, name, depth, arg, prio);
    if (out) *out = h;
    return pdPASS;
}
inline TaskHandle_t xTaskCreateStatic(TaskFunction_t f, const char* name, uint32_t depth, void* arg, UBaseType_t prio, StackType_t* stack, StaticTask_t* st) {
    if (!stack || !st) throw rtos::Error("xTaskCreateStatic: no storage");
    memset(stack, 0xA5, depth * sizeof(StackType_t));            // the kernel fills the stack
    memset(st->rest, 0x5A, sizeof st->rest);
    rtos_task(rtos::make(Kind::Task, &st->c, true), f, name, depth, arg, prio).stack_at = stack;
    return &st->c;
}
inline void vTaskDelete(TaskHandle_t h) { rtos::destroy(h, rtos::get(h, "vTaskDelete")); }
inline void vTaskSuspend(TaskHandle_t h) { rtos::get(h, "vTaskSuspend").state = eSuspended; }
inline void vTaskResume(TaskHandle_t h) { Obj& o = rtos::get(h, "vTaskResume"); if (o.state == eSuspended) o.state = eReady; }
inline eTaskState eTaskGetState(TaskHandle_t h) { return rtos::get(h, "eTaskGetState").state; }
inline TaskHookFunction_t xTaskGetApplicationTaskTag(TaskHandle_t h) { return rtos::get(h, "xTaskGetApplicationTaskTag").tag; }
inline void vTaskSetApplicationTaskTag(TaskHandle_t h, TaskHookFunction_t f) { rtos::get(h, "vTaskSetApplicationTaskTag").tag = f; }
inline BaseType_t xTaskNotify(TaskHandle_t h, uint32_t v, eNotifyAction a) {
    Obj& o = rtos::get(h, "xTaskNotify");
    bool was = o.pending; o.pending = true;
    switch (a) {
        case eSetBits: o.note |= v; break;
        case eIncrement: ++o.note; break;
        case eSetValueWithOverwrite: o.note = v; break;
        case eSetValueWithoutOverwrite: if (was) return pdFAIL; o.note = v; break;
        default: break;
    }
    return pdPASS;
}
inline BaseType_t xTaskNotifyFromISR(TaskHandle_t h, uint32_t v, eNotifyAction a, BaseType_t* w) { if (w) *w = pdTRUE; K->woken = w; return xTaskNotify(h, v, a); }
inline BaseType_t xTaskNotifyGive(TaskHandle_t h) { return xTaskNotify(h, 0, eIncrement); }
inline BaseType_t xTaskNotifyGiveIndexed(TaskHandle_t h, UBaseType_t) { return xTaskNotify(h, 0, eIncrement); }
inline void vTaskNotifyGiveFromISR(TaskHandle_t h, BaseType_t* w) { if (w) *w = pdTRUE; K->woken = w; xTaskNotify(h, 0, eIncrement); }
inline uint32_t ulTaskNotifyValueClear(TaskHandle_t h, uint32_t b) { Obj& o = rtos::get(h, "ulTaskNotifyValueClear"); uint32_t v = o.note; o.note &= ~b; return v; }
inline BaseType_t xTaskNotifyStateClear(TaskHandle_t h) { Obj& o = rtos::get(h, "xTaskNotifyStateClear"); bool v = o.pending; o.pending = false; return v; }

// ---- semaphores
inline QueueHandle_t rtos_sem(Kind k, UBaseType_t max, UBaseType_t count, StaticSemaphore_t* st, bool is_static) {
    if (is_static && !st) throw rtos::Error("static semaphore: no storage");
    if (max == 0 || count > max) throw rtos::Error("semaphore: the initial count is above the maximum");
    if (is_static) memset(st->rest, 0x5A, sizeof st->rest);
    QueueDefinition* h = is_static ? &st->c : new QueueDefinition;
    Obj& o = rtos::make(k, h, is_static); o.max = max; o.count = count;
    return h;
}
inline SemaphoreHandle_t xSemaphoreCreateBinary() { return rtos_sem(Kind::Binary, 1, 0, nullptr, false); }
inline SemaphoreHandle_t xSemaphoreCreateBinaryStatic(StaticSemaphore_t* s) { return rtos_sem(Kind::Binary, 1, 0, s, true); }
inline SemaphoreHandle_t xSemaphoreCreateCounting(UBaseType_t m, UBaseType_t c) { return rtos_sem(Kind::Counting, m, c, nullptr, false); }
inline SemaphoreHandle_t xSemaphoreCreateCountingStatic(UBaseType_t m, UBaseType_t c, StaticSemaphore_t* s) { return rtos_sem(Kind::Counting, m, c, s, true); }
inline SemaphoreHandle_t xSemaphoreCreateMutex() { return rtos_sem(Kind::Mutex, 1, 1, nullptr, false); }
inline SemaphoreHandle_t xSemaphoreCreateMutexStatic(StaticSemaphore_t* s) { return rtos_sem(Kind::Mutex, 1, 1, s, true); }
inline SemaphoreHandle_t xSemaphoreCreateRecursiveMutex() { return rtos_sem(Kind::Recursive, 1, 1, nullptr, false); }
inline SemaphoreHandle_t xSemaphoreCreateRecursiveMutexStatic(StaticSemaphore_t* s) { return rtos_sem(Kind::Recursive, 1, 1, s, true); }
inline void vSemaphoreDelete(SemaphoreHandle_t h) { rtos::quietly([&]{ rtos::destroy(h, rtos::sem(h, "vSemaphoreDelete")); }); }
inline BaseType_t xSemaphoreTake(SemaphoreHandle_t h, TickType_t t) {
    Obj* o = &rtos::sem(h, "xSemaphoreTake"); rtos::task_only("xSemaphoreTake"); rtos::note("take", t);
    if (o->kind == Kind::Recursive) throw rtos::Error("xSemaphoreTake on a recursive mutex");
    if (!rtos::wait(t, [o]{ return o->count > 0; })) return pdFALSE;
    --o->count;
    if (o->kind == Kind::Mutex) o->holder = K->current;
    return pdTRUE;
}
inline BaseType_t xSemaphoreGive(SemaphoreHandle_t h) {
    Obj& o = rtos::sem(h, "xSemaphoreGive"); rtos::task_only("xSemaphoreGive"); rtos::note("give");
    if (o.kind == Kind::Recursive) throw rtos::Error("xSemaphoreGive on a recursive mutex");
    if (o.count == o.max) return pdFALSE;
    ++o.count; o.holder = nullptr;
    return pdTRUE;
}
inline BaseType_t xSemaphoreTakeRecursive(SemaphoreHandle_t h, TickType_t t) {
    Obj* o = &rtos::sem(h, "xSemaphoreTakeRecursive"); rtos::task_only("xSemaphoreTakeRecursive"); rtos::note("take_recursive", t);
    if (o->kind != Kind::Recursive) throw rtos::Error("xSemaphoreTakeRecursive on something else");
    if (o->holder == K->current && o->depth) { ++o->depth; return pdTRUE; }
    if (!rtos::wait(t, [o]{ return o->depth == 0; })) return pdFALSE;
    o->holder = K->current; o->depth = 1; o->count = 0;
    return pdTRUE;
}
inline BaseType_t xSemaphoreGiveRecursive(SemaphoreHandle_t h) {
    Obj& o = rtos::sem(h, "xSemaphoreGiveRecursive"); rtos::task_only("xSemaphoreGiveRecursive"); rtos::note("give_recursive");
    if (o.kind != Kind::Recursive) throw rtos::Error("xSemaphoreGiveRecursive on something else");
    if (!o.depth || o.holder != K->current) return pdFAIL;
    if (--o.depth == 0) { o.holder = nullptr; o.count = 1; }
    return pdTRUE;
}
inline BaseType_t xSemaphoreGiveFromISR(SemaphoreHandle_t h, BaseType_t* w) {
    Obj& o = rtos::sem(h, "xSemaphoreGiveFromISR"); K->woken = w; if (w) *w = pdTRUE;
    if (o.count == o.max) return pdFALSE;
    ++o.count; return pdTRUE;
}
inline BaseType_t xSemaphoreTakeFromISR(SemaphoreHandle_t h, BaseType_t* w) {
    Obj& o = rtos::sem(h, "xSemaphoreTakeFromISR"); K->woken = w; if (w) *w = pdTRUE;
    if (!o.count) return pdFALSE;
    --o.count; return pdTRUE;
}
inline UBaseType_t uxSemaphoreGetCount(SemaphoreHandle_t h) { return rtos::sem(h, "uxSemaphoreGetCount").count; }
inline TaskHandle_t xSemaphoreGetMutexHolder(SemaphoreHandle_t h) { return rtos::sem(h, "xSemaphoreGetMutexHolder").holder; }

// ---- queues
inline QueueHandle_t xQueueCreate(UBaseType_t len, UBaseType_t size) {
    if (!len) throw rtos::Error("xQueueCreate: no room");
    auto h = new QueueDefinition; Obj& o = rtos::make(Kind::Queue, h, false); o.max = len; o.item = size; return h;
}
inline QueueHandle_t xQueueCreateStatic(UBaseType_t len, UBaseType_t size, uint8_t* buf, StaticQueue_t* st) {
    if (!len || !buf || !st) throw rtos::Error("xQueueCreateStatic: no storage");
    memset(buf, 0xC3, len * size); memset(st->rest, 0x5A, sizeof st->rest);
    Obj& o = rtos::make(Kind::Queue, &st->c, true); o.max = len; o.item = size; o.storage = buf; return &st->c;
}
inline void vQueueDelete(QueueHandle_t h) { rtos::quietly([&]{ rtos::destroy(h, rtos::que(h, "vQueueDelete")); }); }
inline UBaseType_t uxQueueMessagesWaiting(QueueHandle_t h) { return rtos::que(h, "uxQueueMessagesWaiting").q.size(); }
inline UBaseType_t uxQueueSpacesAvailable(QueueHandle_t h) { Obj& o = rtos::que(h, "uxQueueSpacesAvailable"); return o.max - o.q.size(); }
inline void rtos_copy_in(Obj& o, const void* p, bool front = false) {
    std::vector<uint8_t> v((const uint8_t*)p, (const uint8_t*)p + o.item);
    if (front) o.q.push_front(v); else o.q.push_back(v);
    if (o.storage) for (size_t i = 0; i < o.q.size(); ++i) memcpy(o.storage + i * o.item, o.q[i].data(), o.item);   // user storage is written
}
inline void rtos_copy_out(Obj& o, void* p, bool keep) { memcpy(p, o.q.front().data(), o.item); if (!keep) o.q.pop_front(); }
inline BaseType_t xQueueSendToBack(QueueHandle_t h, const void* p, TickType_t t) {
    Obj* o = &rtos::que(h, "xQueueSend"); rtos::task_only("xQueueSend"); rtos::note("send", t);
    if (!rtos::wait(t, [o]{ return o->q.size() < o->max; })) return pdFALSE;
    rtos_copy_in(*o, p); return pdTRUE;
}
inline BaseType_t xQueueSend(QueueHandle_t h, const void* p, TickType_t t) { return xQueueSendToBack(h, p, t); }
inline BaseType_t xQueueSendToFront(QueueHandle_t h, const void* p, TickType_t t) {
    Obj* o = &rtos::que(h, "xQueueSendToFront"); rtos::note("send", t);
    if (!rtos::wait(t, [o]{ return o->q.size() < o->max; })) return pdFALSE;
    rtos_copy_in(*o, p, true); return pdTRUE;
}
inline BaseType_t xQueueSendFromISR(QueueHandle_t h, const void* p, BaseType_t* w) {
    Obj& o = rtos::que(h, "xQueueSendFromISR"); K->woken = w; if (w) *w = pdTRUE;
    if (o.q.size() >= o.max) return pdFALSE;
    rtos_copy_in(o, p); return pdTRUE;
}
inline BaseType_t xQueueOverwrite(QueueHandle_t h, const void* p) {
    Obj& o = rtos::que(h, "xQueueOverwrite"); if (o.max != 1) throw rtos::Error("xQueueOverwrite on a longer queue");
    o.q.clear(); rtos_copy_in(o, p); return pdTRUE;
}
inline BaseType_t xQueueOverwriteFromISR(QueueHandle_t h, const void* p, BaseType_t* w) { K->woken = w; if (w) *w = pdTRUE; return xQueueOverwrite(h, p); }
inline BaseType_t xQueueReceive(QueueHandle_t h, void* p, TickType_t t) {
    Obj* o = &rtos::que(h, "xQueueReceive"); rtos::task_only("xQueueReceive"); rtos::note("receive", t);
    if (!rtos::wait(t, [o]{ return !o->q.empty(); })) return pdFALSE;
    rtos_copy_out(*o, p, false); return pdTRUE;
}
inline BaseType_t xQueuePeek(QueueHandle_t h, void* p, TickType_t t) {
    Obj* o = &rtos::que(h, "xQueuePeek"); rtos::task_only("xQueuePeek"); rtos::note("peek", t);
    if (!rtos::wait(t, [o]{ return !o->q.empty(); })) return pdFALSE;
    rtos_copy_out(*o, p, true); return pdTRUE;
}
inline BaseType_t xQueuePeekFromISR(QueueHandle_t h, void* p) { Obj& o = rtos::que(h, "xQueuePeekFromISR"); if (o.q.empty()) return pdFALSE; rtos_copy_out(o, p, true); return pdTRUE; }
inline BaseType_t xQueueReset(QueueHandle_t h) { rtos::que(h, "xQueueReset").q.clear(); return pdPASS; }
inline const char* pcQueueGetName(QueueHandle_t h) { Obj& o = rtos::get(h, "pcQueueGetName"); return o.name.empty() ? nullptr : o.name.c_str(); }
inline BaseType_t xQueueGetStaticBuffers(QueueHandle_t h, uint8_t** buf, StaticQueue_t** st) {
    Obj& o = rtos::que(h, "xQueueGetStaticBuffers"); if (!o.is_static) return pdFALSE;
    *buf = o.storage; *st = reinterpret_cast<StaticQueue_t*>(h); return pdTRUE;
}

// ---- event groups
inline EventGroupHandle_t xEventGroupCreate() { auto h = new EventGroupDef_t; rtos::make(Kind::Events, h, false); return h; }
inline EventGroupHandle_t xEventGroupCreateStatic(StaticEventGroup_t* st) {
    if (!st) throw rtos::Error("xEventGroupCreateStatic: no storage");
    memset(st->rest, 0x5A, sizeof st->rest); rtos::make(Kind::Events, &st->c, true); return &st->c;
}
inline void vEventGroupDelete(EventGroupHandle_t h) { rtos::quietly([&]{ rtos::destroy(h, rtos::get(h, "vEventGroupDelete")); }); }
inline EventBits_t xEventGroupClearBits(EventGroupHandle_t h, EventBits_t b) { Obj& o = rtos::get(h, "xEventGroupClearBits"); EventBits_t v = o.bits; o.bits &= ~b; return v; }
inline BaseType_t xEventGroupClearBitsFromISR(EventGroupHandle_t h, EventBits_t b) { xEventGroupClearBits(h, b); return pdPASS; }
inline EventBits_t xEventGroupSetBits(EventGroupHandle_t h, EventBits_t b) { Obj& o = rtos::get(h, "xEventGroupSetBits"); return o.bits |= b; }
inline BaseType_t xEventGroupSetBitsFromISR(EventGroupHandle_t h, EventBits_t b, BaseType_t* w) { K->woken = w; if (w) *w = pdTRUE; xEventGroupSetBits(h, b); return pdPASS; }
inline EventBits_t xEventGroupWaitBits(EventGroupHandle_t h, EventBits_t b, BaseType_t clear, BaseType_t all, TickType_t t) {
    Obj* o = &rtos::get(h, "xEventGroupWaitBits"); if (!b) throw rtos::Error("xEventGroupWaitBits: no bits"); rtos::note("wait_bits", t);
    auto met = [=]{ return all ? (o->bits & b) == b : (o->bits & b) != 0; };
    bool ok = rtos::wait(t, met);
    EventBits_t v = o->bits;
    if (ok && clear) o->bits &= ~b;
    return v;
}
inline EventBits_t xEventGroupSync(EventGroupHandle_t h, EventBits_t set, EventBits_t b, TickType_t t) {
    Obj* o = &rtos::get(h, "xEventGroupSync"); rtos::note("sync", t);
    o->bits |= set;
    bool ok = rtos::wait(t, [=]{ return (o->bits & b) == b; });
    EventBits_t v = o->bits;
    if (ok) o->bits &= ~b;
    return v;
}

// ---- timers: commands are carried out at once; expiries are scheduled as interrupts
inline void rtos_arm(unsigned serial, tmrTimerControl* h, uint64_t when) {
    Obj* o = K->objs[serial].get(); o->expiry = TickType_t(when); o->active = true;
    uint64_t stamp = when;
    rtos::at(when, [o, h, stamp]{
        if (!o->live || !o->active || o->expiry != TickType_t(stamp)) return;
        if (o->reload) rtos_arm(o->serial, h, stamp + o->period); else o->active = false;
        o->cb(h);
    });
}
inline TimerHandle_t rtos_timer(tmrTimerControl* h, bool is_static, const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb) {
    if (!p) throw rtos::Error("timer: no period");
    Obj& o = rtos::make(Kind::Timer, h, is_static); o.name = n; o.period = p; o.reload = r != 0; o.id = id; o.cb = cb; return h;
}
inline TimerHandle_t xTimerCreate(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb) { return rtos_timer(new tmrTimerControl, false, n, p, r, id, cb); }
inline TimerHandle_t xTimerCreateStatic(const char* n, TickType_t p, UBaseType_t r, void* id, TimerCallbackFunction_t cb, StaticTimer_t* st) {
    if (!st) throw rtos::Error("xTimerCreateStatic: no storage");
    memset(st->rest, 0x5A, sizeof st->rest); return rtos_timer(&st->c, true, n, p, r, id, cb);
}
inline BaseType_t xTimerDelete(TimerHandle_t h, TickType_t t) { rtos::quietly([&]{ Obj& o = rtos::get(h, "xTimerDelete"); rtos::note("timer_delete", t); rtos::destroy(h, o); }); return pdPASS; }
inline BaseType_t xTimerStart(TimerHandle_t h, TickType_t t) { Obj& o = rtos::get(h, "xTimerStart"); rtos::note("timer_start", t); rtos_arm(o.serial, h, K->now + o.period); return pdPASS; }
inline BaseType_t xTimerReset(TimerHandle_t h, TickType_t t) { Obj& o = rtos::get(h, "xTimerReset"); rtos::note("timer_reset", t); rtos_arm(o.serial, h, K->now + o.period); return pdPASS; }
inline BaseType_t xTimerStop(TimerHandle_t h, TickType_t t) { Obj& o = rtos::get(h, "xTimerStop"); rtos::note("timer_stop", t); o.active = false; return pdPASS; }
inline BaseType_t xTimerChangePeriod(TimerHandle_t h, TickType_t p, TickType_t t) {
    Obj& o = rtos::get(h, "xTimerChangePeriod"); if (!p) throw rtos::Error("timer: no period"); rtos::note("timer_period", t);
    o.period = p; rtos_arm(o.serial, h, K->now + p); return pdPASS;
}
inline BaseType_t xTimerStartFromISR(TimerHandle_t h, BaseType_t* w) { K->woken = w; if (w) *w = pdTRUE; return xTimerStart(h, 0); }
inline BaseType_t xTimerStopFromISR(TimerHandle_t h, BaseType_t* w) { K->woken = w; if (w) *w = pdTRUE; return xTimerStop(h, 0); }
inline BaseType_t xTimerResetFromISR(TimerHandle_t h, BaseType_t* w) { K->woken = w; if (w) *w = pdTRUE; return xTimerReset(h, 0); }
inline void vTimerSetTimerID(TimerHandle_t h, void* v) { rtos::get(h, "vTimerSetTimerID").id = v; }
inline void* pvTimerGetTimerID(TimerHandle_t h) { return rtos::get(h, "pvTimerGetTimerID").id; }
inline const char* pcTimerGetName(TimerHandle_t h) { return rtos::get(h, "pcTimerGetName").name.c_str(); }
inline TickType_t xTimerGetExpiryTime(TimerHandle_t h) { return rtos::get(h, "xTimerGetExpiryTime").expiry; }
inline TickType_t xTimerGetPeriod(TimerHandle_t h) { return rtos::get(h, "xTimerGetPeriod").period; }
inline BaseType_t xTimerIsTimerActive(TimerHandle_t h) { return rtos::get(h, "xTimerIsTimerActive").active; }
inline BaseType_t xTimerPendFunctionCall(PendedFunction_t f, void* p, uint32_t v, TickType_t t) { rtos::note("pend", t); rtos::at(K->now, [=]{ f(p, v); }); return pdPASS; }
inline BaseType_t xTimerPendFunctionCallFromISR(PendedFunction_t f, void* p, uint32_t v, BaseType_t* w) { K->woken = w; if (w) *w = pdTRUE; rtos::at(K->now, [=]{ f(p, v); }); return pdPASS; }

// ---- further API, for code which says the same in another way
inline TickType_t xTaskGetTickCountFromISR() { return xTaskGetTickCount(); }
inline BaseType_t xTaskDelayUntil(TickType_t* prev, TickType_t inc) { TickType_t t = TickType_t(*prev + inc), d = TickType_t(t - xTaskGetTickCount()); bool sleeps = d <= portMAX_DELAY / 2 && d; if (sleeps) vTaskDelay(d); *prev = t; return sleeps; }
inline void vTaskDelayUntil(TickType_t* prev, TickType_t inc) { xTaskDelayUntil(prev, inc); }
inline UBaseType_t uxQueueMessagesWaitingFromISR(QueueHandle_t h) { return uxQueueMessagesWaiting(h); }
inline BaseType_t xQueueSendToBackFromISR(QueueHandle_t h, const void* p, BaseType_t* w) { return xQueueSendFromISR(h, p, w); }
inline BaseType_t xQueueReceiveFromISR(QueueHandle_t h, void* p, BaseType_t* w) { Obj& o = rtos::que(h, "xQueueReceiveFromISR"); K->woken = w; if (w) *w = pdTRUE; if (o.q.empty()) return pdFALSE; rtos_copy_out(o, p, false); return pdTRUE; }
inline EventBits_t xEventGroupGetBits(EventGroupHandle_t h) { return xEventGroupClearBits(h, 0); }
inline UBaseType_t uxTimerGetReloadMode(TimerHandle_t h) { return rtos::get(h, "uxTimerGetReloadMode").reload; }
#define xTaskNotifyStateClearIndexed(h, i) xTaskNotifyStateClear(h)
#define pcTaskGetTaskName pcTaskGetName
#define pdMS_TO_TICKS(ms) ((TickType_t)(((uint64_t)(ms) * configTICK_RATE_HZ) / 1000))
#define configASSERT(x) do { if (!(x)) throw rtos::Error("configASSERT: " #x); } while (0)
#define taskENTER_CRITICAL() ((void)0)
#define taskEXIT_CRITICAL() ((void)0)
#define portYIELD_FROM_ISR(x) ((void)(x))
#define portYIELD() taskYIELD()
