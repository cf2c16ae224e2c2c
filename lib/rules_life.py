"""P09: channels are removed before they, or their descriptors, go away."""
from absint import *
from program import Broken
from drive import drive, is_root
from rules_lock import THIS
from rules_conn import CONN, OPAQUE, conn_roots, conn_fields, local_fns, reaches, lambda_caps
from rules_conn2 import UpDown, loc_of, handed_functions, value_fn, chain
from rules_loop import Rec, fn, field_of_type, LF, CH
from rules_confine import CN, AC, TQ, quiet, ChannelOps, SETCB
from rules_fd import this_class, connector_conf, cn_fields, CHP, FD0

CLOSE = ("close", "kanon::sock::Close")
LATER_RUN = (LF + "QueueToLoop", LF + "RunAfter", LF + "RunAt")
DESTROY = CONN + "::ConnectionDestroyed"


def short(q):
    return q.rsplit("::", 1)[-1]


class ConnLife(UpDown):
    """interest and registration of a connection's channel against its state"""
    FIELDS = UpDown.FIELDS + (("off", False), ("gone", False), ("iw", False), ("wv", None), ("clean", False), ("early", None))

    def bad(self, ex, rule, msg, ev=None):
        if rule in ("stays-off", "off-when-down", "removed"):
            UpDown.bad(self, ex, rule, msg, ev)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        self.col.mute = True
        r = UpDown.event(self, ex, st, ev)
        if r is not None:
            return r
        if k == "branch" and self.g(st, "wv") is not None:
            if st.decide(truthv(self.g(st, "wv"))) is True:
                self.s(st, iw=True)
        if k == "ret" and q == CH + "::IsWriting" and self.mine(ex, st, ev.obj):
            self.s(st, wv=ev.ret)
            if self.g(st, "iw"):
                st.assume(truthv(ev.ret), True)
        if k == "callback" or k == "write" and self.is_f(ev.loc, "state"):
            self.s(st, iw=False, wv=None)
            if self.g(st, "early"):
                if k == "callback" or self.g(st, "pos") != {"kConnected"}:
                    self.too_early(ex, st)
                self.s(st, early=None)
        if k == "callback" and self.g(st, "pos") & {"kConnected", "kConnecting", "kDisconnecting"}:
            self.s(st, off=False)
        if k == "call" and q in self.ops and self.mine(ex, st, ev.obj):
            n = short(q)
            if q in self.enables:
                self.refresh(ex, st)
                self.col.data.append(("enable", n))
                self.col.ob("stays-off")
                if self.g(st, "pos") == {"kConnecting"}:
                    self.s(st, early=(ev.fr, ev.line))      # fine if it is up before anything else happens
                elif self.g(st, "pos") & {"kConnecting", "kDisconnected"} and not self.g(st, "iw"):
                    self.bad(ex, "stays-off", "a channel of a connection that may be down gets interest again", ev)
                self.s(st, off=False, gone=False)
            elif n == "DisableAll":
                self.s(st, off=True, gone=False)
            elif n == "Remove":
                self.refresh(ex, st)
                self.s(st, gone=True, clean=self.g(st, "off") or not self.g(st, "pos") & {"kConnected", "kDisconnecting"})
            elif n not in ("HandleEvents",):
                self.s(st, gone=False)

    def too_early(self, ex, st):
        fr, line = self.g(st, "early")
        self.bad(ex, "stays-off", "a channel of a connection that may be down gets interest again", Event("call", fr, line))

    def mine(self, ex, st, obj):
        v = ex.load(st, self.fld("chan"), "Channel *")
        return obj is not None and (obj == self.fld("chan") or obj[0] == 'p' and obj[1] == v)

    def finish(self, ex, f, out):
        for ret, st in out:
            if self.g(st, "early"):
                self.too_early(ex, st)
            if self.g(st, "down"):
                self.col.ob("off-when-down")
                if not self.g(st, "off"):
                    self.bad(ex, "off-when-down", "a connection goes down and its channel keeps its interest")
            if f.q == DESTROY:
                self.col.ob("removed")
                self.col.data.append(("destroy",))
                if not self.g(st, "gone"):
                    self.bad(ex, "removed", "a connection is destroyed and its channel stays in the poller")
                elif not self.g(st, "clean"):
                    self.bad(ex, "removed", "a channel that may still have interest is removed and destroyed")


class Unmuted:
    """collector that keeps the obligations of one set of rules"""

    def __init__(self, col, rules):
        self.c, self.rules = col, rules
        self.mute = False

    def ob(self, r, n=1):
        if r in self.rules:
            self.c.ob(r, n)

    def __getattr__(self, n):
        return getattr(self.c, n)


class CloseCb(Rec):
    """what an owner does when told that a connection closed"""
    FIELDS = (("n", 0),)

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "call" and q == DESTROY:
            self.bad(ex, "not-in-own-events", "a connection is destroyed from its own close callback, while its channel delivers events", ev)
        if k == "call" and q in (LF + "RunInLoop", LF + "QueueToLoop") and ev.args:
            i = value_fn(st, ev.args[0])
            f = self.p.funcs.get(i)
            if f is not None and (f.q == DESTROY or reaches(self.p, f, (DESTROY,))):
                self.col.ob("not-in-own-events")
                if q == LF + "RunInLoop":
                    self.bad(ex, "not-in-own-events", "destroying the connection is not deferred: on the loop's own thread it runs from the "
                             "close callback, while the channel delivers events", ev)


class OwnChannel(Rec):
    """objects that own a channel themselves: the connector and the listener"""
    FIELDS = (("off", frozenset()), ("gone", frozenset()), ("fds", frozenset()), ("kept", frozenset()), ("had", False))

    def chan_field(self, loc):
        return loc is not None and loc[0] == 'f' and loc[2] == self.field

    def which(self, st, obj):
        """channel identity: the pointer value or the member itself"""
        if obj is None:
            return None
        if obj[0] == 'p':
            return obj[1]
        return obj

    def gone(self, st, c):
        return c in self.g(st, "gone")

    def event(self, ex, st, ev):
        k, q = ev.kind, ev.q or ""
        if k == "ret" and q == LF + "AbortNotInThread":
            return []
        if k == "root" and self.connector and self.root.kind != "ctor":
            r = []
            names = ("kConnected", "kDisconnected") if self.after_restart else ("kConnecting", "kConnected", "kDisconnected")
            for n, mem in connector_conf(self.p, names):
                s = st.copy()
                s.mon = st.mon
                s.mem.update(mem)
                self.s(s, had=n == "kConnecting", fds=frozenset({(FD0, CHP)}) if n == "kConnecting" else frozenset())
                r.append(s)
            return r
        if k == "call" and q in self.ops and ev.obj is not None:
            c, n = self.which(st, ev.obj), short(q)
            off, gone = self.g(st, "off"), self.g(st, "gone")
            if n == "DisableAll":
                self.s(st, off=off | {c}, gone=gone - {c})
            elif n == "Remove":
                self.col.ob("removed")
                if c not in off:
                    self.bad(ex, "removed", "a channel is removed while it has interest", ev)
                self.s(st, gone=gone | {c})
            elif q in self.enables:
                self.s(st, off=off - {c}, gone=gone - {c})
            elif n != "HandleEvents":
                self.s(st, gone=gone - {c})
        elif k == "ctor" and q == CH + "::Channel" and len(ev.args) > 1:
            self.s(st, fds=self.g(st, "fds") | {(ev.args[1], self.which(st, ev.loc))})
        elif k == "call" and q in CLOSE and ev.args:
            if q == "close" and any(f.f.q == "kanon::sock::Close" for f in chain(ev.fr)):
                return
            v = ev.args[0]
            c = None
            if self.connector is False and v[0] == 's' and v[2:3] == ('init',) and v[3][0] == 'f' and v[3][2] == self.fdfield:
                c = self.which(st, v[3][1])
            for w, x in self.g(st, "fds"):
                if w == v:
                    c = x
            if c is not None:
                self.col.ob("closed-after-removal")
                if not self.gone(st, c):
                    self.bad(ex, "closed-after-removal", "a descriptor is closed while its channel may be in the poller", ev)
        elif k == "call" and q in LATER_RUN and ev.args:
            held = self.holds(ex, st, ev.args[0], 0)
            if held:
                self.s(st, kept=self.g(st, "kept") | held)
        self.cur = self.g(st, "fds")
        if k == "delete" or k == "write" and isinstance(ev.extra, tuple) and ev.extra[0] == "reset":
            old = ev.val if k == "delete" else ev.extra[1]
            if self.is_chan(old) and st.decide(truthv(old)) is not False:
                self.dies(ex, st, old, ev)
        elif k == "dtor" and self.root.kind == "dtor" and self.root.cls == AC and ev.loc is not None and ev.loc[0] == 'f' and \
                ev.loc[1] == THIS and ev.loc[2] in self.watch:
            self.col.ob("removed")
            self.col.data.append(("ac",))
            c = ('f', THIS, self.acchan)
            if not self.gone(st, self.which(st, c)) and not any(self.gone(st, x) for x in (ex.load(st, c),)):
                self.bad(ex, "removed", "a listener goes away while its channel may be in the poller", ev)

    def is_chan(self, v):
        return v == CHP or isinstance(v, tuple) and v[0] == 's' and v[2:3] == ('new',) and any(c == v for _, c in self.cur)

    def holds(self, ex, st, v, n):
        """channels a callable keeps alive"""
        r = set()
        if n > 6 or not isinstance(v, tuple) or not v:
            return frozenset()
        if self.is_chan(v):
            r.add(v)
        elif v[0] == 'a' and v[1] in st.mem:
            r |= self.holds(ex, st, st.mem[v[1]], n + 1)
        elif v[0] == 'lam':
            g = self.p.funcs.get(v[1])
            weak = {c.get("v") for c in (lambda_caps(self.p, g) if g else ()) if "weak_ptr" in c["t"] or c.get("ref")}
            for key, x in v[2]:
                if key not in weak:
                    r |= self.holds(ex, st, x, n + 1)
        elif v[0] == 'bind':
            for x in v[2]:
                r |= self.holds(ex, st, x, n + 1)
        elif v[0] == 's' and v[2:3] == ('obj',) and len(v) > 4:
            for x in v[4]:
                r |= self.holds(ex, st, x, n + 1)
        return frozenset(r)

    def dies(self, ex, st, c, ev):
        self.col.ob("removed")
        if not self.gone(st, c):
            self.bad(ex, "removed", "a channel is destroyed while it may be in the poller", ev)
        self.bad(ex, "not-in-own-events", "a channel is destroyed where it may be delivering its own events, not from a queued function", ev)

    def finish(self, ex, f, out):
        if f.kind == "dtor":
            return
        for ret, st in out:
            if not self.g(st, "had"):
                continue
            self.cur = self.g(st, "fds")
            v = ex.load(st, ('f', THIS, self.field), "T *")
            if v == CHP or ret == CHP or isinstance(ret, tuple) and ret[0] == 'a' and (ret[1] == ('f', THIS, self.field) or
                                                                                       st.mem.get(ret[1]) == CHP):
                continue
            self.col.ob("removed")
            self.col.data.append(("gave-up",))
            if not self.gone(st, CHP):
                self.bad(ex, "removed", "a channel is given up while it may be in the poller")
            self.col.ob("not-in-own-events")
            if CHP not in self.g(st, "kept"):
                self.bad(ex, "not-in-own-events", "a channel is given up without a queued function that keeps it until its events are delivered")


def P09(prog, rep, tier):
    rep.rule("removed", "a channel that is destroyed or given up was disabled and removed from the poller before, on every path")
    rep.rule("not-in-own-events", "the end of a channel is deferred to a queued function, so that it does not happen while its events are delivered")
    rep.rule("closed-after-removal", "a descriptor is closed only after its channel was removed")
    rep.rule("off-when-down", "a connection that goes down turns its channel's interest off")
    rep.rule("stays-off", "the interest of a connection's channel is turned on only while the connection is up")
    chs = [f for f in prog.funcs.values() if f.cls == CH and f.kind == "fn" and f.has_body]
    ops = set(drive(prog, chs, lambda p, f, c: [ChannelOps(p, f, c)], rep, no_inline=quiet,
                    opaque_fn={LF + "UpdateChannel", LF + "RemoveChannel"})) - set(SETCB)
    enables = {f.q for f in chs if f.name.startswith("Enable")}
    if not {CH + "::DisableAll", CH + "::Remove"} <= ops or len(enables) < 2:
        raise Broken("channel methods not found")
    F = conn_fields(prog)
    own = ("stays-off", "off-when-down", "removed")

    def mkc(p, f, c):
        m = ConnLife(p, f, Unmuted(c, own))
        m.ops, m.enables = ops, enables
        return [m]
    base = local_fns(prog)
    data = drive(prog, conn_roots(prog), mkc, rep, opaque=OPAQUE, opaque_fn={"kanon::ChunkListWriteFd", CH + "::IsWriting"} | ops,
                 no_inline=base, havoc_cb=True)
    if ("destroy",) not in data or ("enable", "EnableReading") not in data:
        raise Broken("connection life cycle not found")
    closers = handed_functions(prog, (CONN + "::SetCloseCallback",))
    nope = {"kanon::EventLoop", "kanon::TcpConnection", CONN, CN, AC, "kanon::EventLoopPool"}
    drive(prog, [prog.funcs[i] for i in closers], lambda p, f, c: [CloseCb(p, f, c)], rep, no_inline=lambda f: f.cls in nope, havoc_cb=False)

    cf = field_of_type(prog, CN, lambda f: "Channel" in f["t"] and "function" not in f["t"], "channel")
    af = field_of_type(prog, AC, lambda f: f.get("c") == CH or "Channel" in f["t"], "channel")
    fdf = field_of_type(prog, CH, lambda f: f["t"] == "int" and f["n"].endswith("fd_"), "descriptor")
    watch = {af} | {f["n"] if "::" in f["n"] else AC + "::" + f["n"] for f in prog.records[AC][0]["fields"] if "Socket" in f["t"]}

    def mko(p, f, c):
        m = OwnChannel(p, f, c)
        m.ops, m.enables, m.field, m.fdfield, m.watch, m.acchan = ops, enables, cf, fdf, watch, af
        m.connector = f.q.startswith(CN + "::") and this_class(prog, f) == CN
        m.after_restart = f.name == "Restrat" or bool(f.parent and prog.funcs[f.parent].name == "Restrat")
        m.cur = frozenset()
        return [m]
    roots = [f for f in prog.funcs.values() if f.has_body and (f.q.startswith(CN + "::") or f.q.startswith(AC + "::")) and is_root(prog, f) and
             f.kind in ("fn", "lambda", "dtor") or f.has_body and f.cls == AC and f.kind == "dtor"]
    roots += [f for f in prog.funcs.values() if f.has_body and f.parent and f.q.startswith((CN + "::", AC + "::")) and f not in roots]
    data = drive(prog, roots, mko, rep, no_inline=lambda f: quiet(f) or f.cls in ("kanon::PollerBase",),
                 opaque_fn=ops | {LF + n for n in ("QueueToLoop", "RunAfter", "RunAt", "CancelTimer", "UpdateChannel", "RemoveChannel")} |
                 {"kanon::sock::Close"}, havoc_cb=False)
    if ("gave-up",) not in data or ("ac",) not in data:
        raise Broken("the channels of connectors or listeners were not found to end: %s" % data)
    rep.need("removed", 4)
    rep.need("not-in-own-events", 3)
    rep.need("closed-after-removal", 2)
    rep.need("off-when-down", 2)
    rep.need("stays-off", 4)
