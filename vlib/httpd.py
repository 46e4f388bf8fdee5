"""The HTTP service of the proxy, started in this process on a loopback port."""
import asyncio
import http.client
import json
import logging
import threading

_loop = None


def loop():
    global _loop
    if _loop is None:
        ready = threading.Event()
        _loop = asyncio.new_event_loop()

        def main():
            asyncio.set_event_loop(_loop)
            _loop.call_soon(ready.set)
            _loop.run_forever()
        threading.Thread(target=main, daemon=True).start()
        ready.wait()
    return _loop


def on_loop(fn):
    async def run():
        return fn()
    return asyncio.run_coroutine_threadsafe(run(), loop()).result(60)


class Service:
    """serve the handlers of a freshly imported service module"""

    def __init__(self):
        logging.disable(logging.CRITICAL)
        import service
        import tornado.httpserver
        import tornado.netutil
        import tornado.web
        self.module = service
        socks = tornado.netutil.bind_sockets(0, "127.0.0.1")
        self.port = socks[0].getsockname()[1]

        def start():
            app = tornado.web.Application(handlers=service.HANDLERS)
            self.server = tornado.httpserver.HTTPServer(app)
            self.server.add_sockets(socks)
        on_loop(start)

    def close(self):
        on_loop(self.server.stop)

    def request(self, method, path, body=None, headers=None):
        """-> (status, body text)"""
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=120)
        try:
            c.request(method, path, body=body, headers=headers or {})
            r = c.getresponse()
            return r.status, r.read().decode("utf8")
        finally:
            c.close()

    def post(self, path, obj):
        return self.request("POST", path, json.dumps(obj).encode("utf8"), {"Content-Type": "application/json"})
