class _LoopBoundMixin:
    def _get_loop(self):
        from asyncio.events import get_event_loop
        return get_event_loop()
