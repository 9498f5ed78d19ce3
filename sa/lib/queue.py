from __sa__ import block, notify, pause


class Empty(Exception):
    pass


class Full(Exception):
    pass


class Queue:
    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self._init(maxsize)

    def _init(self, maxsize):
        self.queue = []

    def _put(self, item):
        self.queue.append(item)

    def _get(self):
        return self.queue.pop(0)

    def qsize(self):
        return len(self.queue)

    def empty(self):
        pause(self)
        return not len(self.queue)

    def full(self):
        return 0 < self.maxsize <= len(self.queue)

    def put(self, item, block_=True, timeout=None, **kw):
        pause(self)
        if "block" in kw:
            block_ = kw["block"]
        while 0 < self.maxsize <= len(self.queue):
            if not block_:
                raise Full
            block(self, timeout is not None)
            if timeout is not None:
                raise Full
        self._put(item)
        notify(self)

    def get(self, block_=True, timeout=None, **kw):
        pause(self)
        if "block" in kw:
            block_ = kw["block"]
        while not len(self.queue):
            if not block_:
                raise Empty
            block(self, timeout is not None)
            if timeout is not None and not len(self.queue):
                raise Empty
        r = self._get()
        notify(self)
        return r

    def put_nowait(self, item):
        return self.put(item, False)

    def get_nowait(self):
        return self.get(False)

    def task_done(self):
        pass

    def join(self):
        pass


class LifoQueue(Queue):
    def _get(self):
        return self.queue.pop()


class SimpleQueue(Queue):
    def __init__(self):
        Queue.__init__(self, 0)
