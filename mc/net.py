"""Driving the real clients: a recording transport and an event loop on a virtual clock."""
import asyncio
import heapq
import selectors

import knx_stack as K
from mc import ref
from mc.core import Mismatch


class Transport:
    """Records what the protocol sends; behaves like a connected datagram or stream transport."""

    def __init__(self, extra=None):
        self.sent = []
        self.closed = False
        self._extra = extra or {}

    # datagram
    def sendto(self, data, addr=None):
        self.sent.append((bytes(data), addr))

    # stream
    def write(self, data):
        self.sent.append((bytes(data), None))

    def writelines(self, parts):
        self.write(b"".join(bytes(p) for p in parts))

    def close(self):
        self.closed = True

    abort = close

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        return self._extra.get(name, default)

    def get_write_buffer_size(self):
        return 0

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def is_reading(self):
        return True

    def can_write_eof(self):
        return True

    def write_eof(self):
        pass

    def take(self):
        out, self.sent = self.sent, []
        return out


class _Selector(selectors.BaseSelector):
    """Never waits: the virtual clock jumps to the next timer instead."""

    def __init__(self):
        self._real = selectors.SelectSelector()
        self.loop = None

    def register(self, *a, **k):
        return self._real.register(*a, **k)

    def unregister(self, *a, **k):
        return self._real.unregister(*a, **k)

    def modify(self, *a, **k):
        return self._real.modify(*a, **k)

    def get_map(self):
        return self._real.get_map()

    def close(self):
        self._real.close()

    def tick(self):
        """Called once per round of the loop."""

    def select(self, timeout=None):
        self.tick()
        if timeout is None:
            raise Stuck()
        if timeout > 0:
            self.loop.now += timeout
        return []


class Stuck(BaseException):
    """Nothing is scheduled: the loop would wait for the network for ever."""


class VirtualLoop(asyncio.SelectorEventLoop):
    """A loop whose time only moves when nothing else can run."""

    def __init__(self):
        sel = _Selector()
        self.now = 1000.0
        super().__init__(sel)
        sel.loop = self
        self.errors = []
        self.set_exception_handler(lambda loop, context: self.errors.append(context))

    def time(self):
        return self.now

    def create_datagram_endpoint(self, *a, **k):
        raise NotImplementedError

    def run_to_end(self):
        """run_forever until stop() is called ('stopped') or nothing can ever happen again ('stuck')."""
        try:
            self.run_forever()
            return "stopped"
        except Stuck:
            return "stuck"


def new_loop():
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    return loop


def drop_loop(loop):
    for t in asyncio.all_tasks(loop):
        t.cancel()
    try:
        loop.run_until_complete(asyncio.sleep(0))
    except Stuck:
        pass
    asyncio.set_event_loop(None)
    loop.close()


def tunneling(state, msgs=(), local=("172.31.10.111", 5544), remote=("172.31.10.250", 3671)):
    from knx_stack.client.knxnet_ip import Tunneling
    return Tunneling(local[0], local[1], remote[0], remote[1], state, msgs)


def deliver(proto, octets, addr=("172.31.10.250", 3671)):
    """A datagram arrives; as in asyncio, an exception does not stop the transport."""
    try:
        proto.datagram_received(bytes(octets), addr)
    except Exception as e:      # reported to the loop's exception handler by asyncio, the endpoint lives on
        return e
    return None
