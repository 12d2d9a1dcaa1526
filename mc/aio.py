"""Running coroutines of the code under test without leaking event loops."""
import asyncio

_loop = None


def run(coro):
    global _loop
    if _loop is None or _loop.is_closed():
        _loop = asyncio.new_event_loop()
    return _loop.run_until_complete(coro)


def fresh(coro):
    return asyncio.run(coro)


def drop_loop():
    """close the event loop which a synchronous call may have left behind as the current one"""
    try:
        loop = asyncio.get_event_loop_policy().get_event_loop()
    except RuntimeError:      # it left none
        return
    loop.close()
    asyncio.set_event_loop(None)
