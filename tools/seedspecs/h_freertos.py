F = "port/freertos/"
PRE = "#include \"FreeRTOS.h\"\n#include <cstdio>\n#include <cstring>\n#define ESTD_OS_FREERTOS 2\n#define FREERTOS_DEMO\n"
RUN = "static rtos::Kernel kernel; static struct Boot { Boot() { rtos::K = &kernel; } } boot;\n"

seed("fr-queue-item-size", "C35", [(F + "queue.h", "            queue_length,\n            sizeof(value_type),\n            reinterpret_cast<uint8_t*>(storage),", "            queue_length,\n            sizeof(storage),\n            reinterpret_cast<uint8_t*>(storage),")], PRE + r'''
#include <estd/port/freertos/queue.h>
''' + RUN + r'''
struct Big { char b[24]; };
int main()
{
    estd::freertos::layer1::queue<Big, 2> q; Big a, c; strcpy(a.b, "more than eight letters"); memset(&c, 0, sizeof c);
    return q.send(a) && q.receive(&c) && !memcmp(&a, &c, sizeof a) ? 0 : 1;
}
''', "a queue in given storage of items which aren't of a pointer's size", "the kernel is told the size of a pointer as that of an item")

seed("fr-event-flags", "C35", [(F + "event_groups.h", "base_type::wait_bits(uxBitsToWaitFor, xClearOnExit, xWaitForAllBits, wait.count())", "base_type::wait_bits(uxBitsToWaitFor, xWaitForAllBits, xClearOnExit, wait.count())")], PRE + r'''
#include <estd/port/freertos/event_groups.h>
''' + RUN + r'''
int main()
{
    estd::freertos::event_group<false> e; e.set_bits(3);
    e.wait_bits(1, true, true, estd::chrono::milliseconds(5)); e.wait_bits(2, false, true, estd::chrono::milliseconds(5));
    return e.clear_bits(0) == 2 ? 0 : 1;
}
''', "waiting for all bits without clearing, or for any with clearing", "bits are cleared which should stay, and one bit counts as all")

seed("fr-task-stack", "C35", [(F + "wrapper/task.h", "            storage<N>::stack_depth,\n            pvParameters, uxPriority,", "            N,\n            pvParameters, uxPriority,")], PRE + r'''
#include <estd/port/freertos/wrapper/task.h>
''' + RUN + r'''
static void code(void*) {}
int main()
{
    typedef estd::freertos::wrapper::task T; static T::storage<256> st;
    T::create_static(code, "t", nullptr, 1, &st);
    return kernel.objs.back()->stack == 256 / sizeof(StackType_t) ? 0 : 1;
}
''', "a task made in a storage<N>, on a kernel which counts stack in words", "the kernel is told four times the stack there is")

seed("fr-sem-desired", "C35", [(F + "semaphore.h", "            wrapped::create(counting_tag(), max, desired, &storage))", "            wrapped::create(counting_tag(), max, desired ? max : 0, &storage))")], PRE + r'''
#include <estd/port/freertos/semaphore.h>
''' + RUN + r'''
int main()
{
    estd::freertos::counting_semaphore<3, true> s(1); s.acquire();
    return s.try_acquire() ? 1 : 0;
}
''', "a counting semaphore in its own storage which starts between empty and full", "it starts full")

seed("fr-recursive-free", "C35", [(F + "mutex.h", "        return s.take_recursive(0);", "        return s.mutex_holder() == NULLPTR && s.take_recursive(0);")], PRE + r'''
#include <estd/port/freertos/mutex.h>
''' + RUN + r'''
int main()
{
    tskTaskControlBlock me; kernel.current = &me;
    estd::freertos::recursive_mutex<false> m; m.lock(); 
    return m.try_lock() ? 0 : 1;
}
''', "trying a recursive mutex the task holds already", "it is refused as if another task held it")

seed("fr-timer-stop-isr", "C35", [(F + "wrapper/timer.h", "        return t.reset_from_isr(pxHigherPrioertyTaskWoken);", "        return t.reset(0);")], PRE + r'''
#include <estd/port/freertos/timer.h>
''' + RUN + r'''
static void cb(TimerHandle_t) {}
int main()
{
    estd::freertos::timer<false> t("t", estd::chrono::milliseconds(10), false, nullptr, cb);
    BaseType_t w = pdFALSE; t.reset_from_isr(&w);
    return w == pdTRUE ? 0 : 1;
}
''', "resetting a timer from an interrupt, with the task-woken flag looked at", "the call for tasks is made and the flag stays as it was")
