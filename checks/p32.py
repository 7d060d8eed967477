"""P32: remote inference sends every sample once and reassembles in order."""
import contextlib
import io
import json
import logging
import sys
import threading
import time
import types
import numpy as np
from demo_lib.fpga import InferFPGAMQTT, Input, InputOutput, LossFPGA, Output
from demo_lib.mqtt import create_client
from harness.core import Unmodelled

RULE = ("histories of calls against an in-process broker and device which logs everything published and answers at once, from another thread, twice, late, garbled or not at all; "
        "sample counts 1..300, batch limits 1..max(n)+, sample ranks 1..3; the log and the returned array checked after every call; distinct = distinct call and reply script")
LONG = 24.0      # a reply is always coming: the limit must not matter
SOURCES = tuple(sys.modules[m].__file__ for m in ("demo_lib.fpga", "demo_lib.mqtt"))


def paced(f, pause):
    """Runs f() with a pause before every line of the code under test, so that other threads run in between."""
    def line(frame, event, arg):
        if event == "line":
            time.sleep(pause)
        return line

    def entered(frame, event, arg):
        return line if frame.f_code.co_filename in SOURCES else None
    old = sys.gettrace()
    sys.settrace(entered)
    try:
        return f()
    finally:
        sys.settrace(old)


class Records(logging.Handler):
    """What was logged while it is active."""

    def __init__(self):
        super().__init__(logging.ERROR)
        self.seen = []

    def emit(self, record):
        self.seen.append(record)

    def __enter__(self):
        root = logging.getLogger()
        self.before = root, root.level, root.handlers[:]
        root.handlers[:] = [self]
        root.setLevel(logging.ERROR)
        return self

    def __exit__(self, *a):
        root, level, handlers = self.before
        root.handlers[:] = handlers
        root.setLevel(level)


class Message:
    def __init__(self, topic, payload, mid):
        self.topic, self.payload, self.mid, self.qos, self.retain = topic, payload, mid, 0, False


class Info:
    rc = 0

    def __init__(self, mid):
        self.mid = mid

    def wait_for_publish(self, timeout=None):
        return None

    def is_published(self):
        return True

    def __iter__(self):
        return iter((0, self.mid))

    def __getitem__(self, i):
        return (0, self.mid)[i]


class Broker:
    """The client side of a broker with the device behind it."""

    def __init__(self):
        self.lock = threading.RLock()
        self.deliver = threading.Lock()          # paho runs callbacks one at a time
        self.callbacks, self.subscribed = {}, []
        self.log, self.mid = [], 0
        self.device = None
        self.threads = []
        self.errors = []
        self.pause = 0

    def subscribe(self, topic, qos=0, *a, **k):
        self.subscribed.append(topic)
        return (0, 1)

    def unsubscribe(self, topic, *a, **k):
        self.subscribed = [t for t in self.subscribed if t != topic]
        return (0, 1)

    def message_callback_add(self, sub, callback):
        self.callbacks[sub] = callback

    def message_callback_remove(self, sub):
        self.callbacks.pop(sub, None)

    def is_connected(self):
        return True

    def publish(self, topic, payload=None, qos=0, retain=False, properties=None):
        with self.lock:
            self.mid += 1
            text = payload.decode() if isinstance(payload, (bytes, bytearray)) else payload
            entry = {"topic": topic, "payload": text, "qos": qos, "mid": self.mid, "outstanding": self.device.outstanding if self.device else 0}
            self.log.append(entry)
        if self.device:
            self.device.on_publish(self, entry)
        return Info(self.mid)

    def send(self, topic, text):
        with self.deliver:
            cb = self.callbacks.get(topic) if topic in self.subscribed else None
            if cb is None:
                self.errors.append("nobody listens to %s" % topic)
                return
            try:
                m = Message(topic, text.encode("utf-8"), 0)
                paced(lambda: cb(self, None, m), self.pause) if self.pause else cb(self, None, m)
            except Exception:        # suppress_exceptions
                pass

    def later(self, delay, f):
        t = threading.Timer(delay, f)
        t.daemon = True
        self.threads.append(t)
        t.start()

    def settle(self):
        for t in self.threads:
            t.join(20)
        self.threads = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unmodelled("the in-process broker has no %s" % name)


class Device:
    """Answers samples y = f(x) for the model it was last given."""

    def __init__(self, infer, result, model, script, rng):
        self.infer, self.result, self.model, self.script, self.rng = infer, result, model, list(script), rng
        self.k = self.outstanding = 0
        self.schema = None
        self.kept = []          # replies that were not sent in time
        self.echo = []          # replies which come again with every batch
        self.batches = []

    @staticmethod
    def f(schema, a):
        a = a if a.dtype.kind == "i" else a.astype(float)
        return np.concatenate([a * schema["gain"], a[:, -1:] + schema["offset"]], axis=1)

    def on_publish(self, broker, e):
        if e["topic"] == self.model:
            self.schema = json.loads(e["payload"])
            return
        if e["topic"] != self.infer:
            broker.errors.append("unexpected topic %s" % e["topic"])
            return
        d = json.loads(e["payload"])["input"]
        a = np.array(d["tensor"]).reshape(d["shape"])
        self.batches.append((d, self.schema))
        self.outstanding += 1
        y = self.f(self.schema, a)
        text = json.dumps({"id": d["id"], "shape": list(y.shape), "tensor": y.ravel().tolist()})
        how = self.script[self.k] if self.k < len(self.script) else "sync"
        self.k += 1

        for old in self.echo:
            broker.send(self.result, old)

        def reply():
            self.outstanding -= 1
            broker.send(self.result, text)
        if how in ("stale", "stale-sync") and self.kept:
            for old in self.kept:
                broker.send(self.result, old)
            self.kept = []
        if how == "garbage":
            for bad in ("", "{", "[1,2", '{"id": %s}' % json.dumps(d["id"]), json.dumps({"id": d["id"], "shape": [7, 7], "tensor": [1]}), "\udcff" if False else "null"):
                broker.send(self.result, bad)
        if how in ("sync", "stale-sync"):
            reply()
        elif how == "twice":
            reply()
            broker.send(self.result, text)
        elif how in ("thread", "stale", "garbage"):
            broker.later(float(self.rng.uniform(0, 0.01)), reply)
        elif how == "thread-twice":
            broker.later(float(self.rng.uniform(0, 0.004)), reply)
            broker.later(float(self.rng.uniform(0.004, 0.02)), lambda: broker.send(self.result, text))
        elif how == "lost":
            self.outstanding -= 1
            self.kept.append(text)
        else:
            raise AssertionError(how)


def call(f, limit, pause=0):
    """Result and duration of f() in a thread of its own; None when it did not come back."""
    box = {}
    if pause:
        g = f
        f = lambda: paced(g, pause)

    def go():
        t = time.monotonic()
        try:
            box["value"] = f()
        except Exception as e:
            box["error"] = e
        box["took"] = time.monotonic() - t
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(limit)
    return box if "took" in box else None


def samples(rng, n):
    rank = int(rng.choice([2, 2, 2, 1, 3]))
    shape = (n,) + tuple(int(v) for v in rng.integers(1, 6, rank - 1))
    kind = str(rng.choice(["float64", "float32", "int", "tiny"]))
    x = rng.normal(0, 10.0 ** rng.integers(-3, 4), shape)
    x = rng.integers(-10 ** 6, 10 ** 6, shape) if kind == "int" else x.astype(np.float32) if kind == "float32" else x * 1e-300 if kind == "tiny" else x
    return x


def flat(x):
    return np.asarray(x).reshape(len(x), -1)


def topics(rng):
    return {k: "%s/%d" % (k.upper(), int(rng.integers(0, 10 ** 6))) for k in ("result", "model", "infer")}


def published(ctx, broker, start, t, schema, x, limit, complete):
    """Model first, then the samples of x in order, one batch at a time."""
    log = broker.log[start:]
    ctx.ok(not broker.errors, "topics", "%s" % broker.errors[:2])
    ctx.ok(log and log[0]["topic"] == t["model"] and sum(e["topic"] == t["model"] for e in log) == 1, "model-first", "published %s" % [e["topic"] for e in log][:6])
    ctx.ok(json.loads(log[0]["payload"]) == schema, "model-payload", "another model was published")
    parts = []
    for e in log[1:]:
        ctx.ok(e["topic"] == t["infer"], "topics", "published on %s" % e["topic"])
        ctx.ok(e["outstanding"] == 0, "overlap", "a batch was sent while %d had no reply" % e["outstanding"])
        d = json.loads(e["payload"])["input"]
        ctx.ok(len(d["shape"]) == 2 and d["shape"][0] * d["shape"][1] == len(d["tensor"]), "payload-shape", "shape %s for %d values" % (d["shape"], len(d["tensor"])))
        n = d["shape"][0]
        ctx.ok(1 <= n <= limit, "batch-size", "a batch of %d samples, limit %d" % (n, limit))
        parts.append(np.array(d["tensor"], dtype=object).reshape(d["shape"]))
        ctx.observe("batch")
    sent = np.concatenate(parts) if parts else np.zeros((0, flat(x).shape[1]), object)
    want = flat(x)
    ctx.ok(len(sent) == len(want) if complete else len(sent) <= len(want), "exactly-once", "%d samples sent of %d" % (len(sent), len(want)))
    ctx.ok(sent.shape[1] == want.shape[1] and all(float(a) == float(b) for a, b in zip(sent.ravel(), want[:len(sent)].ravel())), "order", "the samples sent are not the samples given, in order")
    return len(parts)


def run(ctx):
    rng = ctx.rng
    for k, n in (("calls", 300), ("batch", 1000), ("below-limit", 40), ("lost", 10), ("after-lost", 10), ("stale", 5), ("threaded", 50), ("loss", 20), ("loss-lost", 3), ("payload", 200), ("connect", 40), ("paced", 40), ("echo", 1), ("limits", 1)):
        ctx.need(k, n)
    waiting = patience(rng)
    for i in ctx.loop(400, 6000, share=0.4):
        t = topics(rng)
        limit = int(rng.choice([1, 2, 3, 7, 16, 100, 5000]))
        qos = int(rng.integers(0, 3))
        calls = []
        for _ in range(int(rng.choice([1, 1, 2, 4]))):
            n = int(rng.choice([1, limit - 1, limit, limit + 1, 2 * limit, 2 * limit + 1, rng.integers(1, 60)]))
            n = min(max(n, 1), 300 if limit > 1 else 20)
            mode = str(rng.choice(["sync", "sync", "thread", "mixed"]))
            b = -(-n // limit) + 2
            script = [mode if mode != "mixed" else str(rng.choice(["sync", "thread", "twice", "thread-twice", "garbage"])) for _ in range(b)]
            calls.append((n, script))
        with ctx.case("history", limit=limit, calls=calls, qos=qos):
            broker = Broker()
            infer = InferFPGAMQTT(broker, result_topic=t["result"], model_topic=t["model"], infer_topic=t["infer"], max_batch_size=limit, qos=qos, timeout=LONG)
            broker.pause = 0.001 if i % 8 == 5 else 0
            slow = float(rng.choice([0, 0.001])) if i % 16 == 7 else 0
            net = types.SimpleNamespace()
            for n, script in calls:
                if (broker.pause or slow) and -(-n // limit) > 8:
                    continue
                x = samples(rng, n)
                keep = x.copy()
                schema = {"gain": float(rng.integers(1, 9)), "offset": int(rng.integers(-5, 5)), "graph": [{"op_type": "x", "inputs": [None]}], "name": "net \u00e9"}
                broker.device = Device(t["infer"], t["result"], t["model"], script, rng)
                start = len(broker.log)
                # the same network with other parameters, as a quantizer's, or another network
                if hasattr(net, "schema") and i % 4 < 2:
                    net.schema.update(schema)
                else:
                    net = types.SimpleNamespace(schema=dict(schema))
                got = call((lambda: infer(net, x)) if i % 3 else (lambda: infer(net=net, x=x)), 4 * LONG, slow)
                if broker.pause or slow:
                    ctx.observe("paced")
                ctx.ok(got is not None, "hang", "no result although every batch was answered")
                if "error" in got:
                    raise got["error"]
                broker.settle()
                ctx.ok(got["took"] < LONG / 2, "late", lambda: "%g s for %d samples although every reply came at once" % (got["took"], n))
                published(ctx, broker, start, t, schema, x, limit, True)
                ctx.ok(all(e["qos"] == qos for e in broker.log[start:]), "qos", lambda: "published with qualities of service %s, configured %d" % ({e["qos"] for e in broker.log[start:]}, qos))
                want = Device.f(schema, flat(x))
                ctx.ok(got["value"] is not None, "no-result", "%d samples with batches of at most %d gave no result" % (n, limit))
                ctx.same(got["value"], want, "result", "result of %d samples with batches of at most %d" % (n, limit))
                ctx.same(x, keep, "samples-altered", "the samples were changed")
                ctx.observe("calls")
                if n < limit:
                    ctx.observe("below-limit")
                if "thread" in script:
                    ctx.observe("threaded")
    faults(ctx)
    echoes(ctx)
    limits(ctx)
    losses(ctx)
    connections(ctx)
    payloads(ctx)
    patient(ctx, waiting)


def patience(rng):
    """Calls in the background whose replies take long, though not as long as they may."""
    out = []
    for kind in ("infer", "loss"):
        for delay, limit in ((4.0, 60), (13.0, 60.0), (20.0, 120)):
            broker, t, schema = Broker(), topics(rng), {"gain": 3.0, "offset": 2}
            net = types.SimpleNamespace(schema=schema)
            if kind == "loss":
                f, x, want = LossFPGA(broker, t["result"], t["model"], timeout=limit), None, float(rng.normal())
                go = lambda f=f, net=net: f(net)
                answer = lambda e, want=want: json.dumps({"loss": want})
            else:
                f = InferFPGAMQTT(broker, t["result"], t["model"], t["infer"], max_batch_size=50, timeout=limit)
                x = rng.normal(0, 1, (5, 3))
                go, want = (lambda f=f, net=net, x=x: f(net, x)), Device.f(schema, x)

                def answer(e, want=want):
                    d = json.loads(e["payload"])["input"]
                    return json.dumps({"id": d["id"], "shape": list(want.shape), "tensor": want.ravel().tolist()})

            def on_publish(b, e, t=t, kind=kind, delay=delay, answer=answer):
                if kind == "loss" or e["topic"] == t["infer"]:
                    b.later(delay, lambda: b.send(t["result"], answer(e)))
            broker.device = types.SimpleNamespace(outstanding=0, on_publish=on_publish)
            box = {}

            def run(box=box, go=go):
                try:
                    box["value"] = go()
                except Exception as e:
                    box["error"] = e
            th = threading.Thread(target=run, daemon=True)
            th.start()
            out.append((kind, delay, limit, want, th, box))
    return out


def patient(ctx, waiting):
    for kind, delay, limit, want, th, box in waiting:
        with ctx.case("patient", kind=kind, delay=delay, timeout=limit):
            th.join(limit + 30)
            ctx.ok(not th.is_alive(), "hang", "the %s call is still waiting" % kind)
            ctx.ok(box.get("value") is not None and np.array_equal(box["value"], want), "patience", lambda: "the reply came after %g s of at most %g s: %r" % (delay, limit, box))
            ctx.observe("patient")


def faults(ctx):
    rng = ctx.rng
    for i in ctx.loop(24, 300, share=0.3):
        t = topics(rng)
        limit = int(rng.choice([1, 3, 10]))
        timeout = float(rng.choice([0.2, 0.3]))
        n = int(rng.integers(1, 4 * limit + 2))
        b = -(-n // limit)
        at = int(rng.integers(0, b))
        how = str(rng.choice(["between", "stale", "stale-sync", "never", "garbled"]))
        with ctx.case("lost", limit=limit, n=n, batches=b, lost=at, then=how):
            broker = Broker()
            infer = InferFPGAMQTT(broker, result_topic=t["result"], model_topic=t["model"], infer_topic=t["infer"], max_batch_size=limit, timeout=timeout)
            schema = {"gain": 2.0, "offset": 1}
            x = samples(rng, n)
            broker.device = dev = Device(t["infer"], t["result"], t["model"], ["sync"] * at + ["lost"] * (b + 5), rng)
            with Records() as records:
                got = call(lambda: infer(types.SimpleNamespace(schema=schema), x), timeout + 30)
            ctx.ok(got is not None, "hang", "no answer %g s after a timeout of %g s" % (30, timeout))
            ctx.ok(got["took"] < timeout + 20, "timeout", "came back after %g s, timeout %g s" % (got["took"], timeout))
            ctx.ok(got.get("value") is None, "partial", lambda: "a result of %s although batch %d of %d was not answered" % (np.shape(got["value"]), at, b))
            ctx.ok(records.seen, "silent", "a missing reply is neither raised nor logged") if "error" not in got else None
            k = published(ctx, broker, 0, t, schema, x, limit, False)
            ctx.ok(k == at + 1, "continued", "%d batches sent, the reply to batch %d was missing" % (k, at + 1))
            ctx.observe("lost")
            kept = dev.kept
            if how == "between":
                for old in kept:
                    broker.send(t["result"], old)
            elif how == "garbled":
                broker.send(t["result"], "{]")
            n2 = int(rng.integers(1, 3 * limit + 2))
            x2 = samples(rng, n2)
            schema2 = {"gain": 3.0, "offset": -4}
            first = how if how in ("stale", "stale-sync") else "sync"
            broker.device = Device(t["infer"], t["result"], t["model"], [first], rng)
            broker.device.kept = list(kept)
            start = len(broker.log)
            t0 = time.monotonic()
            got = call(lambda: infer(types.SimpleNamespace(schema=schema2), x2), timeout + 60)
            broker.settle()
            slow = time.monotonic() - t0 > 0.5 * timeout
            ctx.ok(got is not None, "hang", "a call after a lost reply did not come back")
            if got.get("value") is None and first == "stale" and slow:
                ctx.observe("machine-too-slow")
                continue
            ctx.ok(got.get("value") is not None, "later-call", lambda: "a call after a lost reply failed: %r" % got)
            ctx.same(got["value"], Device.f(schema2, flat(x2)), "later-result", "a call after a lost reply (late reply: %s)" % how)
            published(ctx, broker, start, t, schema2, x2, limit, True)
            ctx.observe("after-lost")
            if how.startswith("stale"):
                ctx.observe("stale")


def echoes(ctx):
    """A reply which is missed and then keeps coming is never taken for that of a later batch."""
    rng = ctx.rng
    for i in ctx.loop(2, 20, share=0.05):
        t = topics(rng)
        at, batches = int(rng.integers(0, 4)), 700
        with ctx.case("echo", lost=at, batches=batches):
            broker = Broker()
            infer = InferFPGAMQTT(broker, result_topic=t["result"], model_topic=t["model"], infer_topic=t["infer"], max_batch_size=1, timeout=3)
            schema = {"gain": 2.0, "offset": 1}
            broker.device = dev = Device(t["infer"], t["result"], t["model"], ["sync"] * at + ["lost"] * 9, rng)
            x = samples(rng, at + 2)
            got = call(lambda: infer(types.SimpleNamespace(schema=schema), x), 60)
            ctx.ok(got is not None and got.get("value") is None, "partial", "a result although a batch was not answered")
            kept = list(dev.kept)
            infer2 = {"gain": -1.0, "offset": 4}
            while batches > 0:
                k = int(rng.integers(1, 300))
                batches -= k
                broker.device = Device(t["infer"], t["result"], t["model"], ["thread"] * k, rng)
                broker.device.echo = kept
                x = samples(rng, k)
                start = len(broker.log)
                got = call(lambda: infer(types.SimpleNamespace(schema=infer2), x), 60)
                broker.settle()
                if got is not None and got.get("value") is None and got["took"] > 3:
                    ctx.observe("machine-too-slow")
                    break
                ctx.ok(got is not None and got.get("value") is not None, "later-call", lambda: "a call after a lost reply failed: %r" % got)
                ctx.same(got["value"], Device.f(infer2, flat(x)), "later-result", "a call during which an old reply keeps coming")
                published(ctx, broker, start, t, infer2, x, 1, True)
            ctx.observe("echo")


def limits(ctx):
    """The configured limit is the one that counts: a shorter one ends earlier, a longer one waits longer."""
    rng = ctx.rng
    schema = {"gain": 2.0, "offset": 1}
    net = types.SimpleNamespace(schema=schema)

    def remote(timeout, after):
        """Duration and outcome of a call and of a loss whose replies come after the given time (None: never)."""
        t = topics(rng)
        x = samples(rng, 3)
        broker, lossy = Broker(), Broker()
        infer = InferFPGAMQTT(broker, result_topic=t["result"], model_topic=t["model"], infer_topic=t["infer"], max_batch_size=5, timeout=timeout)
        loss = LossFPGA(lossy, "LOSS", "MODEL", timeout=timeout)
        broker.device = dev = Device(t["infer"], t["result"], t["model"], ["lost"], rng)
        inner = dev.on_publish

        def on_publish(b, e):
            inner(b, e)
            if after is not None and dev.kept:
                b.later(after, lambda text=dev.kept.pop(): b.send(t["result"], text))
        dev.on_publish = on_publish
        lossy.device = types.SimpleNamespace(outstanding=0, on_publish=lambda b, e: after is not None and b.later(after, lambda: b.send("LOSS", json.dumps({"loss": 0.25}))))
        boxes = [None, None]
        ts = [threading.Thread(target=lambda k=k, f=f: boxes.__setitem__(k, call(f, 60)), daemon=True) for k, f in enumerate((lambda: infer(net, x), lambda: loss(net)))]
        for th in ts:
            th.start()
        for th in ts:
            th.join(90)
        broker.settle()
        lossy.settle()
        return boxes, Device.f(schema, flat(x))
    for i in ctx.loop(1, 4, share=0.1):
        with ctx.case("limits", i=i):
            for attempt in range(4):         # a busy machine may be late once
                boxes, _ = remote(0.1, None)
                ctx.ok(None not in boxes, "hang", "a call with a limit of 0.1 s did not come back")
                took = max(b["took"] for b in boxes)
                if took < 1.5:
                    break
            ctx.ok(took < 1.5, "limit-ignored", "4 calls with a limit of 0.1 s took %g s and more" % took)
            boxes, want = remote(LONG, 4.0)
            ctx.ok(None not in boxes, "hang", "a call with a reply after 4 s did not come back")
            ctx.ok(boxes[0].get("value") is not None and boxes[1].get("value") is not None, "gave-up", lambda: "a reply after 4 s was not awaited although the limit is %g s: %r" % (LONG, boxes))
            ctx.same(boxes[0]["value"], want, "result", "a reply after 4 s")
            ctx.ok(boxes[1]["value"] == 0.25, "loss-value", "loss after 4 s: %r" % boxes[1])
            ctx.observe("limits")


def losses(ctx):
    """The loss computed by the device is the one reported for the model just published."""
    rng = ctx.rng
    for i in ctx.loop(40, 400, share=0.15):
        lost = i % 8 == 3
        with ctx.case("loss", i=i, lost=lost):
            broker = Broker()
            qos = int(rng.integers(0, 3))
            f = LossFPGA(broker, "LOSS", "MODEL", qos=qos, timeout=0.2 if lost else LONG)
            broker.pause = float(rng.choice([0, 0.001, 0.004]))
            slow = float(rng.choice([0, 0.002]))
            net = types.SimpleNamespace()
            for k in range(int(rng.integers(1, 4))):
                value = float(rng.normal()) if (i + k) % 4 else float(rng.choice([0.0, 0.0, -0.0, 1e-300, 1e300, 3.0]))
                schema = {"v": k, "w": value}
                mode = "lost" if lost and k == 0 else "sync" if lost else str(rng.choice(["sync", "thread"]))
                start = len(broker.log)

                def on_publish(b, e, value=value, mode=mode):
                    text = json.dumps({"loss": value})
                    if mode == "sync":
                        b.send("LOSS", text)
                    elif mode == "thread":
                        b.later(float(rng.uniform(0, 0.005)), lambda: b.send("LOSS", text))
                broker.device = types.SimpleNamespace(outstanding=0, on_publish=on_publish)
                if hasattr(net, "schema") and i % 4 < 2:
                    net.schema.update(schema)
                else:
                    net = types.SimpleNamespace(schema=dict(schema))
                got = call((lambda: f(net)) if i % 2 else (lambda: f(net=net)), 2 * LONG, slow)
                if broker.pause or slow:
                    ctx.observe("paced")
                broker.settle()
                ctx.ok(got is not None, "loss-hang", "the loss call did not come back")
                ctx.ok(got["took"] < LONG / 2, "late", lambda: "the loss took %g s" % got["took"])
                log = broker.log[start:]
                ctx.ok(len(log) == 1 and log[0]["topic"] == "MODEL" and json.loads(log[0]["payload"]) == schema, "loss-model", "published %s" % log[:2])
                ctx.ok(log[0]["qos"] == qos, "qos", "published with quality of service %r, configured %d" % (log[0]["qos"], qos))
                if mode == "lost":
                    ctx.ok(isinstance(got.get("error"), Exception) or got.get("value") is None, "loss-partial", lambda: "a loss of %r without a report" % got["value"])
                    ctx.ok(got["took"] < 20, "timeout", "came back after %g s" % got["took"])
                    broker.send("LOSS", json.dumps({"loss": 1e9}))     # too late
                    ctx.observe("loss-lost")
                else:
                    ctx.ok(got.get("value") == value, "loss-value", lambda: "loss %r, reported %r" % (got, value))
                    ctx.observe("loss")


def connections(ctx):
    rng = ctx.rng
    for i in ctx.loop(60, 300, share=0.05):
        name, user, pwd, host = ("%s %d" % (w, rng.integers(0, 1000)) for w in ("client", "user \u00e9", "secret", "host"))
        port, keep = int(rng.integers(1, 65536)), int(rng.integers(1, 300))
        with ctx.case("connect", name=name, user=user, password=pwd, host=host, port=port, keep_alive=keep):
            with contextlib.redirect_stdout(io.StringIO()):
                c = create_client(name, user, pwd, host, port, keep) if i % 2 else create_client(name=name, pwd=pwd, user=user, port=port, host=host, keep_alive=keep)
            log = c.log
            ids = [e[1] for e in log if e[0] in ("init", "reinitialise")]
            ctx.ok(ids[-1] == name, "identity", "connects as %r" % ids)
            con = [k for k, e in enumerate(log) if e[0] == "connect"]
            auth = [k for k, e in enumerate(log) if e[0] == "auth"]
            ctx.ok(len(con) == 1 and log[con[0]][1:] == (host, port, keep), "address", "connects with %s" % [log[k] for k in con])
            ctx.ok(auth and auth[-1] < con[0] and log[auth[-1]][1:] == (user, pwd), "credentials", "authenticates with %s" % [log[k] for k in auth])
            after = [k for k, e in enumerate(log) if e[0] == "reinitialise"]
            ctx.ok(not after or after[-1] < auth[-1], "credentials", "the client is reset after it was given its credentials")
            ctx.ok(c.suppress_exceptions is True, "exceptions", "an exception inside a callback ends the client")
            ctx.observe("connect")


def payloads(ctx):
    rng = ctx.rng
    for i in ctx.loop(300, 4000, share=0.15):
        n, m = (int(v) for v in rng.integers(1, 9, 2))
        x = rng.normal(0, 10.0 ** rng.integers(-5, 6), (n, m))
        if rng.random() < 0.3:
            x = rng.integers(-2 ** 40, 2 ** 40, (n, m))
        if rng.random() < 0.2:
            x = x.astype(np.float32)
        if rng.random() < 0.3:
            x = np.asfortranarray(x)
        y = rng.normal(0, 1, (n, int(rng.integers(1, 5))))
        name = str(rng.choice(["0", "test", "\u00e9 \"q\"", ""]))
        with ctx.case("payload", shape=[n, m], dtype=str(x.dtype), i=i):
            for o, kv, text, a in ((Input.from_numpy(name, x),) * 2 + (None, x), (Output.from_numpy(name, y),) * 2 + (None, y)):
                d = json.loads(json.dumps(o.as_kv()))
                ctx.ok(d["id"] == name and d["shape"] == list(a.shape), "payload-header", "%s" % {k: d[k] for k in ("id", "shape")})
                r = Output.from_kv(d).as_numpy()
                ctx.same(r, a, "payload", "round trip")
            ctx.ok(json.loads(Input.from_numpy(name, x).as_json()) == Input.from_numpy(name, x).as_kv(), "payload-json", "as_json and as_kv differ")
            both = InputOutput.from_numpy(name, x, y)
            d = json.loads(both.as_json())
            ctx.ok(d == both.as_kv() and d["input"] == Input.from_numpy(name, x).as_kv() and d["output"] == Output.from_numpy(name, y).as_kv(), "payload-pair", "input/output pair")
            ctx.observe("payload")
