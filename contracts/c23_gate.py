"""C23 no protected dashboard page is served without a logged-in user."""
import asyncio
import functools

from asyncz.contrib.dashboard.admin import AsynczAdmin
from asyncz.contrib.dashboard.admin.backends import SimpleUsernamePasswordBackend
from asyncz.contrib.dashboard.admin.middleware import auth_gate
from asyncz.contrib.dashboard.admin.middleware.auth_gate import AuthGateMiddleware
from asyncz.contrib.dashboard.admin.protocols import User

NOTE = ("The gate is verified for every path and mount prefix (symbolic texts), every answer of the backend and allow-lists of "
        "up to two arbitrary entries beside the default ones (that number is bounded). That the assembled application puts "
        "the gate before every page is sampled natively against the real router with the real session backend (bounded).")
ASSUMPTIONS = ["lilya's Request, PlainText and RedirectResponse behave as documented; its router dispatches by path"]

DEFAULT = ("/login", "/logout", "/static", "/assets")
WORDS = ("", "/", "/login", "login", "/logout", "/static", "/staticx", "/static/x.css", "/assets/y", "/tasks", "/dash", "/dashboard",
         "/a", "/loginx", "/login/", "//login", "/a/login", "static", "/Login", "/dash/", "日本", "?x", "\n")


def _text(E, name, most):
    if E.sym:
        return E.text(name)
    return "".join(E.choice(f"{name}.{i}", *WORDS) for i in range(E.int(f"{name} pieces", 0, most)))


def _allowed(E, root, path, allow):
    """the documented rule: the path below the mount prefix is an allowed path or below one"""
    child = _child(E, root, path)
    return E.search("allowed", allow, lambda i, p: E.or_(child == p, E.call(child.startswith, p + "/")))


def _child(E, root, path):
    def starts(a, b):
        return E.truth(E.call(a.startswith, b))

    base = E.call(root.rstrip, "/")
    child = path
    if E.truth(base != ""):
        if E.truth(path == base):
            child = "/"
        elif starts(path, base + "/"):
            child = E.call(path.removeprefix, base)
    if not starts(child, "/"):
        child = "/" + child
    return child


def gate(E):
    reached, asked, answered, seen = [], [], [], {}
    kind = E.choice("scope", "http", "websocket", "lifespan")
    root = None if kind != "http" or not E.choice("mount", False, True) else _text(E, "root", 2)
    path = None if E.choice("without a path", False, True) else _text(E, "path", 3)
    if E.sym:
        from pyvc.values import TextC
    allow = E.seq("allow-list", TextC if E.sym else None, lambda i: E.choice(f"a{i}", *WORDS), maxlen=4)
    fe = _allowed(E, root or "", path or "/", allow)
    if E.conc:
        seen["hx"] = E.choice("htmx", None, "true", "false")
    who = User(id="1", name="n")

    async def app(scope, receive, send):
        reached.append((scope, receive, send))

    async def authenticate(request):
        asked.append(request)
        user = seen["user"] = E.choice("user", "known", "unknown", "falsy", "fails")
        if user == "fails":
            raise RuntimeError("backend")
        return who if user == "known" else None if user == "unknown" else E.choice("nothing", 0, "", {}, [])

    scope = {"type": kind, "method": "GET", "query_string": b"", "headers": [(b"hx-request", seen["hx"].encode())] if seen.get("hx") else [],
             "path": path, "root_path": root}
    if root is None:
        del scope["root_path"]
    if path is None:
        scope["path"] = None
    sent = []

    async def receive():
        return {"type": "http.request"}

    async def send(m):
        sent.append(m)

    if E.sym:
        def Request(scope, receive=None, send=None):
            hx = seen["hx"] = E.choice("htmx", None, "true", "false")
            return E.stub("request", None, scope=scope, headers={"hx-request": hx} if hx else {}, state=E.stub("state", None))

        def response(status):
            def make(content, status_code=status, headers=None):
                async def answer(s, r, w):
                    answered.append((status_code, headers or {}, content))
                return answer
            return make

        E.patch(auth_gate, "Request", Request)
        E.patch(auth_gate, "PlainText", response(200))
        E.patch(auth_gate, "RedirectResponse", response(307))
    m = E.call(AuthGateMiddleware, app, authenticate, allowlist=allow)
    r = E.run_call(m.__call__, scope, receive, send)
    if kind != "http":
        E.prove("other traffic is passed on", r.ok and len(reached) == 1 and reached[0][0] is scope and not asked)
        E.reached("passed on")
        return
    if fe.found() is not None:
        E.prove("an open path is passed on without asking", r.ok and len(reached) == 1 and not asked)
        E.prove("as it came", reached[0] == (scope, receive, send) if E.conc else reached[0][0] is scope)
        E.reached("open path")
        return
    E.prove("the backend is asked once", len(asked) == 1)
    user, hx = seen["user"], seen["hx"]
    if user == "known":
        E.prove("a recognised user reaches the page", r.ok and len(reached) == 1)
        E.reached("page reached")
        return
    E.prove("nobody else does", not reached)
    if user == "fails":
        E.prove("a failing backend is not hidden", not r.ok)
        return
    E.prove("an answer is given instead", r.ok)
    if E.sym:
        E.prove("one answer", len(answered) == 1)
        status, headers, url = answered[0]
        url = headers.get("HX-Redirect") if status == 401 else url
    else:
        status = sent[0]["status"]
        headers = {k.decode().lower(): v.decode("latin-1") for k, v in sent[0]["headers"]}
        url = headers.get("hx-redirect") if status == 401 else headers.get("location")
        E.prove("which leads to the login page", url is not None and "/login?next=" in url)
    E.prove("refused or sent to the login page", status == (401 if hx == "true" else 303) and url is not None)
    E.reached("refused")


# ------------------------------------------------------------------ the assembled application
PAGES = ("/", "/tasks", "/tasks/", "/tasks/partials/table", "/logs", "/logs/partials/table", "/history", "/audit", "/events", "/runtime",
         "/instances", "/timeline", "/tasks/create", "/tasks/t1", "/tasks/t1/run", "/tasks/t1/pause", "/tasks/t1/remove",
         "/tasks/t1/resume", "/tasks/bulk/remove", "/nowhere", "/tasks/../login", "/login", "/logout", "/static/css/x.css",
         "/loginx", "/static", "/staticx/../tasks", "/login/tasks", "/static/tasks", "/assets/tasks")


@functools.cache
def _app(prefix, host, forward):
    from asyncz.schedulers.asyncio import AsyncIOScheduler
    sch = AsyncIOScheduler(stores={"default": {"type": "memory"}})
    sch.add_task(print, "interval", minutes=5, id="t1")
    users = {"u": "p"}

    def verify(name, password):
        return User(id=name, name=name) if users.get(name) == password else None

    admin = AsynczAdmin(enable_login=True, backend=SimpleUsernamePasswordBackend(verify), url_prefix=prefix, scheduler=sch,
                        enable_forward_middleware=forward, trusted_forwarded_hosts=("*",))
    if host == "direct":
        app = admin.get_asgi_app()
    elif host == "prefixed":
        app = admin.get_asgi_app(with_url_prefix=True)
    else:
        from lilya.apps import Lilya
        app = Lilya()
        admin.include_in(app)
    return app, sch


def _request(app, method, path, root, headers, body=b""):
    out = []

    async def receive():
        return {"type": "http.request", "body": body, "more_body": False}

    async def send(m):
        out.append(m)

    scope = {"type": "http", "method": method, "path": path, "raw_path": path.encode(), "root_path": root, "query_string": b"",
             "headers": headers, "client": ("1.2.3.4", 5), "server": ("h", 80), "scheme": "http", "http_version": "1.1",
             "asgi": {"version": "3.0"}, "state": {}}

    async def go():
        try:
            await app(scope, receive, send)
        except Exception:
            if not out:
                out.append({"type": "http.response.start", "status": 500, "headers": []})

    asyncio.run(go())
    status = next(m["status"] for m in out if m["type"] == "http.response.start")
    hs = [(k.decode().lower(), v.decode("latin-1")) for k, v in next(m for m in out if m["type"] == "http.response.start")["headers"]]
    return status, hs, b"".join(m.get("body", b"") for m in out)


@functools.cache
def _session(prefix, host, forward):
    app, _ = _app(prefix, host, forward)
    body = b"username=u&password=p&next=/z"
    status, hs, _ = _request(app, "POST", "/login", "", [(b"content-type", b"application/x-www-form-urlencoded"),
                                                         (b"content-length", str(len(body)).encode())], body)
    cookies = [v.split(";")[0] for k, v in hs if k == "set-cookie"]
    return status, "; ".join(cookies)


def assembled(E):
    """every request to the real application without a session is answered without the page (bounded: sampled)"""
    prefix = E.choice("prefix", "/dashboard", "/admin/x")
    host = E.choice("host", "direct", "prefixed", "included")
    forward = E.choice("forwarding", False, True)
    app, sch = _app(prefix, host, forward)
    page = E.choice("page", *PAGES)
    base = E.choice("below", "", prefix, "/login", "/static", prefix + "/static", "/other")
    path = base + page
    method = E.choice("method", "GET", "POST", "DELETE", "HEAD")
    headers = []
    if E.choice("htmx", False, True):
        headers.append((b"hx-request", b"true"))
    if forward and E.choice("forwarded", False, True):
        headers.append((b"x-forwarded-prefix", E.choice("to", b"/p", b"/login", b"/static", b"", b"/")))
    login = E.choice("cookie", "none", "junk", "valid")
    if login == "valid":
        status, cookie = _session(prefix, host, forward)
        E.prove("the right password logs in", status == 303 and cookie)
        headers.append((b"cookie", cookie.encode()))
        method = "GET"
    elif login == "junk":
        headers.append((b"cookie", b"session=junk; asyncz_admin=1; session_cookie=e30="))
    status, hs, body = _request(app, method, path, "", headers)
    location = dict(hs).get("location", dict(hs).get("hx-redirect", ""))
    to_login = status == 401 or status == 303 and "/login?next=" in location
    free = any(path == p or path.startswith(p + "/") for p in (*DEFAULT, prefix + "/static", prefix + "/assets"))
    if login == "valid":
        E.prove("a logged-in user is not sent to the login page", not to_login)
        own = page in ("/", "/tasks", "/history", "/audit", "/events", "/logs", "/timeline")
        at = base == "" if host == "direct" else base == prefix
        if own and at:
            E.prove("and gets the page", status in (200, 303, 307, 308))
    elif not free:
        E.prove("nobody else gets a page", to_login)
    else:
        E.prove("an open path is none of the pages", status in (404, 405) or path in ("/login", "/logout") or b"t1" not in body)
    E.prove("nothing is done to the tasks", [t.id for t in sch.get_tasks()] == ["t1"])
    E.reached(login)


def wrong_login(E):
    """only the right password makes a session (bounded: sampled)"""
    app, _ = _app("/dashboard", "prefixed", False)
    name, pw = E.choice("name", "u", "U", "", "x", "u%00"), E.choice("password", "p", "P", "", "x", "p%20")
    body = f"username={name}&password={pw}".encode()
    status, hs, _ = _request(app, "POST", "/login", "", [(b"content-type", b"application/x-www-form-urlencoded"),
                                                         (b"content-length", str(len(body)).encode())], body)
    cookies = "; ".join(v.split(";")[0] for k, v in hs if k == "set-cookie")
    good = name == "u" and pw == "p"
    s2, h2, _ = _request(app, "GET", "/dashboard/tasks/", "", [(b"cookie", cookies.encode())] if cookies else [])
    E.prove("only the right password opens the pages", (s2 == 200) == good)
    if good:
        _, h3, _ = _request(app, "GET", "/logout", "", [(b"cookie", cookies.encode())])
        out = "; ".join(v.split(";")[0] for k, v in h3 if k == "set-cookie")
        s4, _, _ = _request(app, "GET", "/dashboard/tasks/", "", [(b"cookie", out.encode())])
        E.prove("logging out closes them", s4 != 200)
    E.reached("tried")


UNITS = [gate]
RUNTIME = [assembled, wrong_login]
QUICK_S = 150
