"""Runs calls of the Python client, given as JSON lines, and prints their outcomes.

usage: drive.py REPO HOST; a line is {"m": method, "a": [args], "k": {kwargs},
"how": "sync" | "async" | "asyncloop" | "asyncbare" | "gather" | "kept" | "asynckept" | "free"}, or
{"how": "mixed" | "threads", "calls": [{"m", "a"}]}, or {"how": "server"}
"""
import asyncio
import concurrent.futures
import json
import os
import sys
import threading

sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"), os.path.join(sys.argv[1], "python")]
HOST = sys.argv[2]

import comfo  # noqa: E402
from comfo import Comfo, comfo_twirp, exceptions, types  # noqa: E402
import twirp.client  # noqa: E402
from twirp.exceptions import TwirpServerException  # noqa: E402

assert comfo.__file__.startswith(os.path.join(sys.argv[1], "python")), comfo.__file__


def plain(x):
    if x is None or isinstance(x, (bool, int, float, str)):
        return {"t": type(x).__name__, "v": x}
    fields = {k: getattr(x, k) for k in dir(x) if not k.startswith("_") and k.upper() != k}
    return {"t": type(x).__name__, "v": {k: v for k, v in fields.items() if v is None or isinstance(v, (bool, int, float, str))}}


def outcome(f):
    try:
        return {"ok": plain(f())}
    except TwirpServerException as e:
        return {"twirp": e.code.value}
    except (exceptions.InvalidFanSpeed, exceptions.InvalidDutyPercent, exceptions.InvalidTemperature) as e:
        return {"exc": type(e).__name__}
    except Exception as e:
        return {"other": type(e).__name__ + ": " + str(e)}


def several(c):
    """Different calls on one client at the same time."""
    x = Comfo(HOST)
    if c["how"] == "threads":
        with concurrent.futures.ThreadPoolExecutor(len(c["calls"])) as ex:
            return list(ex.map(lambda k: outcome(lambda: getattr(x, k["m"])(*k.get("a", []))), c["calls"]))

    async def main():
        return await asyncio.gather(*[getattr(x, "async_" + k["m"])(*k.get("a", [])) for k in c["calls"]], return_exceptions=True)

    def again(r):
        if isinstance(r, BaseException):
            raise r
        return r
    return [outcome(lambda: again(r)) for r in asyncio.run(main())]


def server():
    """What the generated server class does with each RPC."""
    class Service:
        def __getattr__(self, name):
            if name.startswith("_"):
                raise AttributeError(name)
            return lambda *a: name
    t = comfo_twirp.ComfoServer(service=Service())
    return {"prefix": t._prefix, "rpcs": {k: [e.service_name, e.name, e.function(None, None), e.input.DESCRIPTOR.full_name, e.output.DESCRIPTOR.full_name]
                                          for k, e in t._endpoints.items()}}


KEPT = []


def one(c):
    if c["how"] in ("mixed", "threads"):
        twirp.client.jitter = 0.01
        try:
            return {"list": several(c)}
        finally:
            twirp.client.jitter = 0
    if c["how"] == "server":
        try:
            return {"server": server()}
        except Exception as e:
            return {"other": type(e).__name__ + ": " + str(e)}
    m, a, k = c["m"], c.get("a", []), c.get("k", {})
    how = c["how"]
    if how == "sync":
        return outcome(lambda: getattr(Comfo(HOST), m)(*a, **k))
    if how in ("kept", "asynckept"):  # one client for many calls, not the only one
        if not KEPT:
            KEPT.extend([Comfo(HOST), Comfo("127.254.254.254")])
        if how == "kept":
            return outcome(lambda: getattr(KEPT[0], m)(*a, **k))
    m = "async_" + m
    if how == "asynckept":
        async def main():
            return await getattr(KEPT[0], m)(*a, **k)
        return outcome(lambda: asyncio.run(main()))
    if how == "free":  # the loop goes on during the call
        ev, held = threading.Event(), []

        def gate():
            if not ev.wait(10):
                held.append(1)
        twirp.client.gate = gate

        async def main():
            t = asyncio.ensure_future(getattr(Comfo(HOST), m)(*a, **k))
            await asyncio.sleep(0.02)
            ev.set()
            return await t
        o = outcome(lambda: asyncio.run(main()))
        twirp.client.gate = None
        return {"other": "the event loop stands still during the call"} if held else o
    if how == "async":  # made within a running loop
        async def main():
            return await getattr(Comfo(HOST), m)(*a, **k)
        return outcome(lambda: asyncio.run(main()))
    if how == "asyncloop":  # given the loop
        async def main():
            return await getattr(Comfo(HOST, loop=asyncio.get_running_loop()), m)(*a, **k)
        return outcome(lambda: asyncio.run(main()))
    if how == "asyncbare":  # made before the loop runs
        x = Comfo(HOST)

        async def main():
            return await getattr(x, m)(*a, **k)
        return outcome(lambda: asyncio.run(main()))
    if how == "gather":  # several at once on one client
        async def main():
            x = Comfo(HOST)
            rs = await asyncio.gather(*[getattr(x, m)(*a, **k) for _ in range(3)], return_exceptions=True)
            for r in rs:
                if isinstance(r, BaseException):
                    raise r
            return rs

        def run():
            rs = [plain(r) for r in asyncio.run(main())]
            if any(r != rs[0] for r in rs):
                raise RuntimeError(f"results differ: {rs}")
            return rs[0]

        try:
            return {"ok": run()}
        except TwirpServerException as e:
            return {"twirp": e.code.value}
        except (exceptions.InvalidFanSpeed, exceptions.InvalidDutyPercent, exceptions.InvalidTemperature) as e:
            return {"exc": type(e).__name__}
        except Exception as e:
            return {"other": type(e).__name__ + ": " + str(e)}
    raise ValueError(how)


print(json.dumps({"speeds": [types.FanProfiles.SPEED_OFF, types.FanProfiles.SPEED_LOW, types.FanProfiles.SPEED_MEDIUM, types.FanProfiles.SPEED_HIGH]}), flush=True)
for line in sys.stdin:
    print(json.dumps(one(json.loads(line))), flush=True)
