"""C24 the remote control application obeys exactly the callers that present the configured token."""
import asyncio
import base64
import functools
import json
import pickle

from asyncz.contrib.dashboard import remote
from asyncz.contrib.dashboard.remote import RemoteSchedulerClient, create_remote_scheduler_app

NOTE = ("Every handler of the application is verified for all tokens and header values as symbolic texts, the client's headers "
        "included. At run time the same clauses are checked on the real router with real requests.")
ASSUMPTIONS = ["lilya's router hands a request to the handler of its route; its headers answer as documented (name without case)",
               "tokens are ASCII texts, as HTTP header values are"]

TOKENS = ("", "s", "secret", "Secret", "secret ", " secret", "secre", "secrett", "Bearer secret", "None", "null", "0", "s,s",
          "secret,secret", "a" * 300)
HEADER = "x-asyncz-remote-token"
touched: list = []


class Effect:
    def __reduce__(self):
        return touched.append, ("unpickled",)


class Worker:
    """a scheduler that only records what it is asked for"""

    def __init__(self, E):
        self.__dict__["E"] = E

    def __getattr__(self, n):
        if n.startswith("__") or n in ("_vc_sym",):
            raise AttributeError(n)
        touched.append(n)
        return (lambda *a, **k: []) if n.endswith("_infos") else self.ask

    def ask(self, *a, **k):
        return self.E.stub("task", None, snapshot=lambda: None) if self.E.sym else Snap()


class Snap:
    def snapshot(self):
        return None

    def model_dump(self, mode=None):
        return None

    def __iter__(self):
        return iter(())


class Headers(dict):
    def get(self, k, d=None):
        return dict.get(self, k.lower(), d)


REQUESTS = (("GET", "/info"), ("GET", "/instances"), ("GET", "/tasks"), ("POST", "/tasks"), ("GET", "/tasks/t1"), ("PATCH", "/tasks/t1"),
            ("GET", "/tasks/t1/preview"), ("POST", "/tasks/t1/run"), ("POST", "/tasks/t1/pause"), ("POST", "/tasks/t1/resume"),
            ("POST", "/tasks/t1/remove"))


@functools.cache
def _routes():
    """the routes the application really has"""
    app = create_remote_scheduler_app(object(), token=None)
    return tuple(sorted({(m, r.path) for r in app.routes for m in (r.methods or ()) if m != "HEAD"}))


def handlers(E):
    token = None if E.choice("open", False, True) else E.text("token") if E.sym else E.choice("token", *TOKENS)
    how = E.choice("carrying", "header", "nothing", "client")
    client_token = None
    value = None
    if how == "header":
        value = E.text("value") if E.sym else E.choice("value", *TOKENS)
    elif how == "client":
        client_token = None if E.choice("client without", False, True) else (
            E.text("client token") if E.sym else E.choice("client token", *TOKENS))
        c = E.call(RemoteSchedulerClient, "http://h", token=client_token)
        headers = E.call(c._headers)
        value = headers.get(HEADER)
        E.prove("the client presents its token and nothing else",
                value is None if client_token is None else value is not None and E.truth(value == client_token))
    if token is not None and value is None:
        E.assume(token != "")  # whether a missing header presents the empty token is left open
    touched.clear()
    body = E.choice("body", "none", "full")
    payload = {} if body == "none" else {"fn": "m:f", "updates": {"name": "x"}, "store": "s", "trigger": "interval", "force": True}
    if E.sym:
        routes = []
        answers = []

        def route(path, handler, methods=(), name=None, **k):
            for m in methods:
                routes.append((m, path, handler))

        def response(content, status_code=200, **k):
            answers.append(status_code)
            return E.stub("response", None, status_code=status_code)

        async def read():
            touched.append("body read")
            return payload

        E.patch(remote, "RoutePath", route)
        E.patch(remote, "Router", lambda routes=(), **k: routes)
        E.patch(remote, "JSONResponse", response)
        E.call(create_remote_scheduler_app, Worker(E), token=token)
        E.prove("there are handlers", len(routes) > 0)
        at = E.choice("route", *range(len(routes)))
        method, path, handler = routes[at]
        touched.clear()
        action = E.choice("action", "run", "pause", "resume", "remove") if "{action" in path else None
        request = E.stub("request", None, headers=Headers({} if value is None else {HEADER: value}), json=read,
                         query_params={"store": "s"} if body == "full" else {}, path_params={"task_id": "t1", "action": action},
                         method=method)
        r = E.run_call(handler, request)
        status = answers[-1] if answers else None
    else:
        app = create_remote_scheduler_app(Worker(E), token=token)
        method, path = E.choice("route", *_routes())
        path = path.replace("{task_id:str}", "t1").replace("{action:str}", E.choice("action", "run", "pause", "resume", "remove"))
        path = path.replace("{task_id}", "t1").replace("{action}", "run")
        if body == "full":
            payload["trigger_pickle"] = base64.b64encode(pickle.dumps(Effect())).decode()
        name = E.choice("spelling", HEADER, HEADER.upper(), "X-Asyncz-Remote-Token")
        # servers pass header names in lower case, as ASGI requires
        raw = [] if value is None else [(name.lower().encode(), value.encode("latin-1"))]
        touched.clear()
        r = E.run_call(_send, app, method, path, raw, json.dumps(payload).encode() if body == "full" else b"")
        status = r.value if r.ok else None
    right = token is None or value is not None and E.truth(value == token)
    if right:
        E.prove("the holder of the token is obeyed", len(touched) > 0 and status != 401)
        E.reached("obeyed")
    else:
        E.prove("nobody else has any effect", len(touched) == 0)
        E.prove("and is told so", r.ok and status == 401)
        E.reached("refused")


def _send(app, method, path, headers, body):
    out = []

    async def receive():
        return {"type": "http.request", "body": body, "more_body": False}

    async def send(m):
        out.append(m)

    scope = {"type": "http", "method": method, "path": path, "raw_path": path.encode(), "root_path": "", "query_string": b"",
             "headers": [(b"content-type", b"application/json"), (b"content-length", str(len(body)).encode()), *headers],
             "client": ("1.2.3.4", 5), "server": ("h", 80), "scheme": "http", "http_version": "1.1", "asgi": {"version": "3.0"}, "state": {}}

    async def go():
        try:
            await app(scope, receive, send)
        except Exception:
            if not out:
                out.append({"type": "http.response.start", "status": 500})

    asyncio.run(go())
    return next(m["status"] for m in out if m["type"] == "http.response.start")


UNITS = [handlers]
