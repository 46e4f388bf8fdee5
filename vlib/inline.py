"""The HTTP service of the proxy without a network: a request is handled to its end in the calling thread, workers
included, so that a schedule can interleave the requests of several threads."""
import asyncio
import concurrent.futures
import json
import logging


class Inline(concurrent.futures.Executor):
    def __init__(self, *a, **kw):
        pass

    def submit(self, fn, *a, **kw):
        f = concurrent.futures.Future()
        try:
            f.set_result(fn(*a, **kw))
        except Exception as e:
            f.set_exception(e)
        return f


class Connection:
    """tornado's side of a connection: takes the answer"""
    no_keep_alive = True

    def __init__(self):
        self.status, self.body, self.done = None, b"", asyncio.Event()
        self.context = None

    def ready(self):
        f = asyncio.get_event_loop().create_future()
        f.set_result(None)
        return f

    def write_headers(self, start, headers, chunk=None):
        self.status = start.code
        self.body += chunk or b""
        return self.ready()

    def write(self, chunk):
        self.body += chunk
        return self.ready()

    def finish(self):
        self.done.set()

    def set_close_callback(self, f):
        pass


class Service:
    """serve the handlers of a freshly imported service module"""

    def __init__(self):
        logging.disable(logging.CRITICAL)
        real = concurrent.futures.ThreadPoolExecutor
        concurrent.futures.ThreadPoolExecutor = Inline
        try:
            import service
        finally:
            concurrent.futures.ThreadPoolExecutor = real
        import tornado.web
        self.app = tornado.web.Application(handlers=service.HANDLERS)

    def close(self):
        pass

    def request(self, method, path, body=None, headers=None):
        import tornado.httputil
        if isinstance(body, str):
            body = body.encode("utf8")

        async def go():
            c = Connection()
            r = tornado.httputil.HTTPServerRequest(method, path, headers=tornado.httputil.HTTPHeaders(headers or {}),
                                                   body=body or b"", host="127.0.0.1", connection=c)
            r._parse_body()
            loop.set_exception_handler(lambda loop, context: (problem.append(context), c.done.set()))
            self.app(r)
            await c.done.wait()
            if problem and c.status is None:        # an exception that tornado does not answer
                raise problem[0].get("exception") or RuntimeError(problem[0]["message"])
            return c.status, c.body.decode("utf8")
        loop, problem = asyncio.new_event_loop(), []
        try:
            asyncio.set_event_loop(loop)
            return loop.run_until_complete(go())
        finally:
            asyncio.set_event_loop(None)
            loop.close()

    def post(self, path, obj):
        return self.request("POST", path, json.dumps(obj).encode("utf8"), {"Content-Type": "application/json"})
