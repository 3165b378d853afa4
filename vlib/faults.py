"""Enumeration of every fault at every operation of a run, over prepared scenarios."""
import random

from . import view
from .check import Violation
from .oracle import check_published, check_rsync
from .source import LAYOUTS, Source, Style
from .world import Opts, World

NAMES = ("first", "update", "session", "return", "back", "hosts", "norsync", "delay", "xdev", "xdevfirst", "limit", "limit0", "cleanup", "empty", "staged", "killed", "failed", "moved", "rsyncback", "deep")


class Case:
    """A prepared situation: w, src and the options o of the run to be disturbed."""

    def __init__(self, w, src, o):
        self.w, self.src, self.o = w, src, o
        self.before = w.view()
        self.saved = w.save("case")
        self.srcsaved = src.save()

    def reset(self):
        self.src.load(self.srcsaved)
        self.w.restore(self.saved)

    def right(self, before=None):
        """The published content is the source's."""
        check_published(self.w, self.o, before if before is not None else self.before)
        if self.o.rsync:
            check_rsync(self.w, self.src.objects, self.o.include_host)


def build(ctx, name, variant, seed):
    """The same scenario for the same arguments, in any process."""
    r = random.Random("%s|%s|%s" % (name, variant, seed))
    layout = "deep" if name == "deep" else r.choice(LAYOUTS)
    src = Source(r, base=r.choice(["https://rrdp.example.net/rrdp/", "https://rrdp.example.net/"]), name=r.choice(["notification.xml", "n"]), layout=layout, style=Style(r),
                 nobj=0 if name == "empty" else r.choice([1, 2, 4]))
    w = World(ctx, src)
    pre = Opts(cleanup=3600)
    o = Opts(cleanup=3600)

    def sync(n=1, opts=None, adv=10):
        for _ in range(n):
            w.emit()
            w.must(opts or pre, observe=False)
            w.advance(adv)

    if name in ("first", "empty"):
        pass
    elif name == "xdevfirst":
        w.xdev = w.rrdp
    elif name in ("update", "delay", "xdev", "deep"):
        sync()
        src.publish()
        sync()
        src.publish()
        src.publish()
        if name == "delay":
            o = Opts(delay=30)
        if name == "xdev":
            w.xdev = w.rrdp
    elif name == "session":
        sync()
        src.publish()
        sync()
        src.new_session(nobj=2)
        src.publish()
    elif name in ("return", "back", "rsyncback"):
        src.publish()
        sync()
        a = src.save()
        src.new_session(nobj=2)
        sync(adv=10 if name != "back" else 4000)
        src.load(a)
        if name == "rsyncback":
            o = Opts(cleanup=0)
        elif r.random() < 0.5:
            src.publish()
    elif name == "hosts":
        pre = Opts(include_host=True)
        o = Opts(include_host=True)
        sync()
        src.publish()
    elif name == "norsync":
        sync()
        src.publish()
        o = Opts(rsync=False)
    elif name in ("limit", "limit0"):
        for _ in range(4):
            src.publish()
        sync()
        src.publish()
        src.publish()
        o = Opts(max_deltas=2 if name == "limit" else 0)
    elif name == "cleanup":
        pre = Opts(cleanup=5, max_deltas=2)
        o = Opts(cleanup=5, max_deltas=2)
        sync(adv=1)
        src.publish()
        sync(adv=1)
        src.new_session(nobj=1)
        sync(adv=100)
        src.publish()
    elif name == "staged":
        sync()
        src.publish()
        files = src.files()
        files[src.deltas[-1][1]] = b"broken"
        w.emit(files)
        w.run(o, observe=False)
        src.publish()
    elif name in ("killed", "failed"):
        sync()
        src.publish()
        w.emit()
        n = r.randrange(4, 60)
        w.run(o, observe=False, fault={n: "k" if name == "killed" else r.choice(["e28", "e5"])})
        w.advance(r.choice([0, 10, 5000]))
        if r.random() < 0.5:
            src.publish()
    elif name == "moved":
        sync()
        w.rrdp += "2"
        src.publish()
    else:
        raise ValueError(name)
    w.emit()
    return Case(w, src, o)


def kinds(ev, full=True):
    """Every fault that can happen to an operation."""
    out = ["k", "K"]
    if ev.op == "sleep":
        return out
    out += ["e28", "e5", "e13"] if full else ["e28", "e13"]
    if ev.op in ("write", "copy") and ev.num >= 2:
        h = max(1, ev.num // 2)
        out += ["s%d" % h, "s1", "p%d" % h, "f%d,28" % h, "f%d,5" % (ev.num - 1), "e4"]
    if ev.op == "rename":
        out += ["e1", "e16"]
    if ev.op == "mkdir":
        out += ["e30"]
    return out


def read_kinds(ev):
    return ["e5", "e13", "e23"] if ev.op == "open-r" else ["e5", "s1", "e4"] if ev.op == "read" else []
