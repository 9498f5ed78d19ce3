from asyncio import exceptions
from asyncio.exceptions import CancelledError, InvalidStateError, TimeoutError
from asyncio.futures import Future, Task, ensure_future, create_task, isfuture, iscoroutinefunction, iscoroutine
from asyncio.events import (AbstractEventLoop, AbstractEventLoopPolicy, BaseEventLoop, get_event_loop, new_event_loop,
                            set_event_loop, get_running_loop, set_event_loop_policy, run, Runner)
from asyncio.tasks import (sleep, gather, wait_for, wait, all_tasks, current_task, shield, FIRST_COMPLETED, FIRST_EXCEPTION,
                           ALL_COMPLETED, as_completed, to_thread, run_coroutine_threadsafe, TaskGroup, timeout)
from asyncio.locks import Lock, Event, Condition, Semaphore, BoundedSemaphore
from asyncio.queues import Queue, QueueEmpty, QueueFull, PriorityQueue, LifoQueue
