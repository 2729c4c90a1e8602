"""Two processes joined by a stand-in web connection.

The event loop is a real asyncio/tornado loop, run in steps by a cothread instead of
in its own thread; what is handed between it and the cothread scheduler
(cothread.Callback) is carried out in the order in which it was handed over."""


class Tornado:
    """The thread with the event loop"""

    keep = []

    def __init__(self, ctx):
        import asyncio

        import cothread
        import cothread.cothread as cc
        from tornado.ioloop import IOLoop

        from malcolm.modules.web.util import IOLoopHelper

        self.ctx = ctx
        outer = self

        class Loop(asyncio.SelectorEventLoop):
            def call_soon(self, *args, **kw):
                outer.kick()
                return super().call_soon(*args, **kw)

            def call_soon_threadsafe(self, *args, **kw):
                outer.kick()
                return super().call_soon_threadsafe(*args, **kw)

        for old in self.keep:
            if not old.is_closed():
                old.close()
        self.keep.clear()
        self.event = cothread.Event(auto_reset=False)
        self.pumping = False
        self.held = False
        self.callbacks = []
        self.errors = []
        self.cb_event = cothread.Event(auto_reset=True)
        self.loop = Loop()
        self.loop.set_exception_handler(self.on_error)
        self.keep.append(self.loop)
        asyncio.set_event_loop(self.loop)
        IOLoopHelper._loop = IOLoop.current()
        IOLoopHelper._thread = None
        cothread.Callback = cc.Callback = self.callback
        cothread.Spawn(self.run)
        cothread.Spawn(self.run_callbacks)

    def on_error(self, loop, context):
        self.errors.append(context.get("exception") or context.get("message"))

    def kick(self):
        if not self.pumping:
            self.event.Signal()

    def hold(self, held):
        """Let the event loop stand still, or go on"""
        self.held = held
        if not held:
            self.event.Signal()

    def step(self):
        """One turn of the event loop"""
        from asyncio import events

        self.pumping = True
        try:
            self.loop.call_soon(self.loop.stop)
            self.loop.run_forever()
        finally:
            self.pumping = False
            events._set_running_loop(None)

    def run(self):
        while True:
            self.event.Wait()
            self.event.Reset()
            while not self.held:
                self.step()
                if not self.loop._ready:
                    break

    def callback(self, action, *args):
        self.callbacks.append((action, args))
        self.cb_event.Signal()

    def run_callbacks(self):
        while True:
            while self.callbacks:
                action, args = self.callbacks.pop(0)
                try:
                    action(*args)
                except Exception as e:
                    self.errors.append(e)
            self.cb_event.Wait()

    def settle(self):
        for i in range(6):
            self.ctx.settle()

    def call(self, func, *args):
        """Have something done by the event loop"""
        self.loop.call_soon(func, *args)


class Server:
    """A process with a web server, whose clients are stand-ins"""

    def __init__(self, ctx, tornado, mri="WEB", interfaces=None, process=None):
        from malcolm.core import Process
        from malcolm.modules.web.controllers import httpservercomms
        from malcolm.modules.web.parts import WebsocketServerPart, websocketserverpart

        self.ctx, self.tornado = ctx, tornado
        outer = self

        class Application:
            def __init__(self, handlers):
                outer.handlers = handlers

        class HTTPServer:
            def __init__(self, app):
                outer.listening = []

            def listen(self, port):
                outer.listening.append(port)

            def stop(self):
                outer.listening.append(None)

        httpservercomms.Application = Application
        httpservercomms.HTTPServer = HTTPServer
        if interfaces is not None:
            use_interfaces(websocketserverpart, interfaces)
        self.process = process or Process("server")
        self.web = httpservercomms.HTTPServerComms(mri)
        self.web.add_part(
            WebsocketServerPart(subnet_validation=interfaces is not None))
        self.process.add_controller(self.web)

    def connect(self, ip="127.0.0.1", receive=None):
        """A new web socket; receive(text) gets what is sent to it"""
        return Socket(self, ip, receive)


class Socket:
    """The server's end of a connection"""

    def __init__(self, server, ip, receive):
        from types import SimpleNamespace

        from tornado.websocket import WebSocketClosedError

        self.server = server
        self.open = True
        self.got = []
        self.refused = 0
        _, cls, kwargs = server.handlers[0]
        self.handler = h = cls.__new__(cls)
        h.request = SimpleNamespace(remote_ip=ip)
        h.initialize(**kwargs)
        h.ws_connection = None

        def write_message(message, binary=False):
            if not self.open:
                self.refused += 1
                raise WebSocketClosedError()
            if isinstance(message, dict):
                import tornado.escape

                message = tornado.escape.json_encode(message)
            self.got.append(message)
            if receive:
                receive(message)

        h.write_message = write_message

    def send(self, text):
        """Have the server get a message"""
        self.server.tornado.call(self.deliver, text)

    def deliver(self, text):
        if self.open:
            try:
                self.handler.on_message(text)
            except Exception as e:
                # tornado drops the connection
                self.server.tornado.errors.append(e)
                self.close()

    def close(self):
        if self.open:
            self.open = False
            on_close = getattr(self.handler, "on_close", None)
            if on_close:
                on_close()


def use_interfaces(mod, interfaces):
    """Stand-in network interfaces: {name: (address, netmask, up)}, an address of None
    means that the kernel refuses to give it"""
    import io
    import os
    import socket
    import struct
    from types import SimpleNamespace

    def ioctl(fd, sig, packed):
        name = packed.rstrip(b"\0").decode()
        pick = 0 if sig == 0x8915 else 1
        addr = interfaces[name][pick]
        if addr is None:
            raise OSError("no address")
        return b"\0" * 20 + struct.pack("!I", addr) + b"\0" * 8

    real_open = open

    def fake_open(path, *args, **kw):
        parts = str(path).split("/")
        if str(path).startswith(mod.SYSNET):
            return io.StringIO("up\n" if interfaces[parts[-2]][2] else "down\n")
        return real_open(path, *args, **kw)

    class Os:
        path = os.path

        @staticmethod
        def listdir(path):
            return list(interfaces)

        def __getattr__(self, name):
            return getattr(os, name)

    mod.fcntl = SimpleNamespace(ioctl=ioctl)
    mod.open = fake_open
    mod.os = Os()


class Link:
    """A client connected to the server"""

    def __init__(self, server, ip="127.0.0.1"):
        import asyncio
        from collections import deque

        self.server = server
        self.tornado = server.tornado
        self.waiting = None
        self.messages = deque()
        self.asyncio = asyncio
        self.sent = []
        self.closed = False
        self.lost = False
        self.socket = server.connect(ip, self.receive)

    # from the server
    def receive(self, text):
        self.tornado.call(self.push, text)

    def push(self, text):
        if self.closed:
            return
        if text is None:
            self.closed = True
        if self.waiting is not None and not self.waiting.done():
            w, self.waiting = self.waiting, None
            w.set_result(text)
        else:
            self.messages.append(text)

    # what the client calls
    def write_message(self, text, binary=False):
        from tornado.websocket import WebSocketClosedError

        if self.lost or self.closed:
            raise WebSocketClosedError()
        self.sent.append(text)
        self.socket.send(text)

    def read_message(self, callback=None):
        f = self.tornado.loop.create_future()
        if self.messages:
            f.set_result(self.messages.popleft())
        else:
            self.waiting = f
        return f

    def close(self, code=None, reason=None):
        self.cut()

    # what the network does
    def cut(self):
        """The connection breaks"""
        self.lost = True
        self.tornado.call(self.socket.close)
        self.tornado.call(self.push, None)


def use_connect(make):
    """Have the client comms connect to what make(url) gives, a Link or None"""
    import tornado.websocket

    from malcolm.modules.web.controllers import websocketclientcomms as wcc

    def websocket_connect(url, *args, **kw):
        import asyncio

        loop = asyncio.get_event_loop()
        f = loop.create_future()
        link = make(url)

        def done(turns):
            # it takes some turns of the event loop to connect
            if turns:
                loop.call_soon(done, turns - 1)
            elif isinstance(link, Exception):
                f.set_exception(link)
            elif link is not None:
                f.set_result(link)

        done(3)
        return f

    wcc.websocket_connect = tornado.websocket.websocket_connect = websocket_connect
