"""Schedules of concurrent requests: every storage call is a gate."""
import asyncio

from .core import Violation


class Sched:
    """Every storage call waits at a gate until the schedule lets it pass."""

    def __init__(self, picks):
        self.reset(picks)

    def reset(self, picks, tags=("C18", "C22")):
        self.picks, self.i, self.waiting, self.owner, self.tasks, self.tags = picks, 0, [], {}, [], list(tags)

    def wrap(self, cls):
        me = self

        class Gated(cls):
            pass
        for name in ("find_user", "find_client", "save_authorization_code", "get_authorization_code", "delete_authorization_code", "create_access_token", "create_refresh_token",
                     "get_refresh_token", "get_userinfo", "get_key_info", "revoke_token"):
            def make(name, orig):
                async def method(self, *a, **k):
                    t = me.owner.get(asyncio.current_task())
                    if t is None:
                        return await orig(self, *a, **k)
                    f = asyncio.get_running_loop().create_future()
                    me.waiting.append((t, name, f))
                    try:
                        act = await f
                    finally:
                        me.waiting = [x for x in me.waiting if x[2] is not f]
                    if act == "before":
                        raise t["exc"]
                    mark = len(me.w.log)
                    r = await orig(self, *a, **k)
                    for e in me.w.log[mark:]:
                        e.append(t["id"])
                    if act == "after":
                        raise t["exc"]
                    return r
                return method
            setattr(Gated, name, make(name, getattr(cls, name)))
        return Gated

    async def run(self, reqs, late):
        """reqs: records with 'coro'; late[i]: the step at which task i starts."""
        todo, step, idle = list(enumerate(reqs)), 0, 0
        while True:
            for i, r in list(todo):
                if (late[i] if i < len(late) else 0) <= step or not self.waiting:
                    todo.remove((i, r))
                    r["begun"] = self.clock()
                    r["task"] = asyncio.ensure_future(self.drive(r))
                    self.owner[r["task"]] = r
                    self.tasks.append(r["task"])
                    break
            for _ in range(12):
                await asyncio.sleep(0)
            if not self.waiting:
                if not todo and all(t.done() for t in self.tasks):
                    return
                if not todo:
                    idle += 1
                    await asyncio.sleep(0.002)
                    if idle > 1500:
                        for t in self.tasks:
                            t.cancel()
                        raise Violation("concurrent requests never finish (deadlock)", self.tags)
                continue
            step += 1
            k = self.picks[self.i] if self.i < len(self.picks) else 0
            self.i += 1
            t, name, f = self.waiting[k % len(self.waiting)]
            n = t["gates"]
            t["gates"] += 1
            fault = t["fault"]
            if f.done():
                continue
            if fault and fault[0] == n and not t["hit"]:
                t["hit"] = (name, fault[1], n)
                if fault[1] == "cancel":
                    t["task"].cancel()
                else:
                    f.set_result(fault[1])
            else:
                f.set_result(None)

    def clock(self):
        self.ticks = getattr(self, "ticks", 0) + 1
        return self.ticks

    async def drive(self, r):
        try:
            r["out"] = await r["coro"]
        except (Exception, asyncio.CancelledError) as exc:
            r["raised"] = exc
        r["ended"] = self.clock()
