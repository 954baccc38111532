"""P28 scoped GDAL configuration: random nested programs of scopes, with every option compared to a reference model after each step."""

import os
import threading
from contextlib import ExitStack

from osgeo import gdal

from aws.osml.gdal import GDALConfigEnv, set_gdal_default_configuration

SHARDS = {"quick": 16, "thorough": 64}
MIN = {"scope": 4000, "nested": 1000, "same-object-nested": 200, "same-object-again": 400, "exception": 600, "restored": 15000, "was-unset": 2000, "was-set": 2000, "was-environment": 1000, "credentials": 800, "credentials-inside": 100,
       "other-thread": 1000, "set-inside": 500, "environment-changed": 200}
RULE = "distinct programs (sequence of scope entries, exits, option changes)"
ASSUME = ["scopes are left in the reverse order in which they were entered, as with statements do", "option values without NUL characters; no thread-local options"]
KEYS = ["AWS_SECRET_ACCESS_KEY", "AWS_ACCESS_KEY_ID", "AWS_SESSION_TOKEN", "VF_ONE", "VF_TWO", "VF_THREE", "VF_FOUR", "GDAL_CACHEMAX", "CPL_DEBUG"]
DEFAULT_KEYS = ["VSI_CACHE", "VSI_CACHE_SIZE", "GDAL_DISABLE_READDIR_ON_OPEN", "GDAL_NUM_THREADS", "CPL_VSIL_CURL_CHUNK_SIZE"]


class Boom(Exception):
    pass


class Stop(KeyboardInterrupt):
    """Leaves the scope the way Ctrl-C does."""


class Quit(SystemExit):
    pass


class Done(GeneratorExit):
    pass


BOOMS = [Boom, Boom, Stop, Quit, Done, type("Missing", (KeyError,), {}), type("Failed", (RuntimeError,), {})]


class Model:
    """Explicitly set options over the environment, names without case"""

    def __init__(self):
        self.set, self.stack = {}, []

    def value(self, k):
        v = self.set.get(k.upper())
        return v if v is not None else os.environ.get(k)

    def enter(self, opts):
        self.stack.append({k.upper(): self.set.get(k.upper()) for k in opts})
        for k, v in opts.items():
            self.set[k.upper()] = str(v)

    def exit(self):
        self.set.update(self.stack.pop())


def value(r):
    return [lambda: "v%d" % r.integers(1e6), lambda: int(r.integers(1e6)), lambda: float(r.random()), lambda: "", lambda: "naïve ü=%d" % r.integers(9), lambda: bool(r.random() < 0.5), lambda: "None", lambda: "x" * 5000][int(r.choice(8, p=[0.5, 0.1, 0.1, 0.05, 0.1, 0.05, 0.05, 0.05]))]()


def options(r):
    o = {}
    for k in r.permutation(KEYS[3:])[: int(r.integers(0, 5))]:
        k = str(k)
        o[k if r.random() < 0.7 else k.lower()] = value(r) if k.startswith("VF") else {"GDAL_CACHEMAX": "%d%%" % r.integers(5, 60), "CPL_DEBUG": str(r.choice(["OFF", "VF_NONE"]))}[k]
        if r.random() < 0.1 and k.startswith("VF"):
            o[k.title()] = value(r)  # the same option under two spellings: the later one counts
    return o


def credentials(r):
    return {"SecretAccessKey": "s%d" % r.integers(1e9), "AccessKeyId": "k%d" % r.integers(1e9), "SessionToken": "t%d" % r.integers(1e9), "Expiration": "2030-01-01"}


CRED = {"AWS_SECRET_ACCESS_KEY": "SecretAccessKey", "AWS_ACCESS_KEY_ID": "AccessKeyId", "AWS_SESSION_TOKEN": "SessionToken"}


def run(m, tier, shard):
    r = m.rng
    watch = KEYS + ["VF_UNTOUCHED"]

    def observe(model, key, elsewhere=False):
        for k in watch:
            m.check(gdal.GetConfigOption(k) == model.value(k), key, f"{k} is {gdal.GetConfigOption(k)!r} instead of {model.value(k)!r}")
        if elsewhere:
            got = {}
            t = threading.Thread(target=lambda: got.update({k: gdal.GetConfigOption(k) for k in watch}))
            t.start()
            t.join()
            m.check(got == {k: model.value(k) for k in watch}, key + "-thread", "another thread sees other values")
            m.event("other-thread")

    for i in range(m.n(350, 1500)):
        for k in watch:
            gdal.SetConfigOption(k, None)
            os.environ.pop(k, None)
        model = Model()
        program = []
        for k in watch:
            u = r.random()
            if u < 0.4 or k == "VF_UNTOUCHED":
                v = "outer-%s" % k if k != "GDAL_CACHEMAX" else "7%"
                if k != "CPL_DEBUG":
                    gdal.SetConfigOption(k, v)
                    model.set[k] = v
            elif u < 0.6 and not k.startswith(("GDAL", "CPL")):
                os.environ[k] = "env-%s" % k
        envs = []  # [object, options the model thinks it has]
        depth_of = {}
        with m.case({"initial": {k: model.value(k) for k in watch}, "program": program}):

            def new():
                if envs and r.random() < 0.4:
                    e = int(r.integers(len(envs)))
                    m.event("same-object-again")
                    return e
                o = options(r)
                given = dict(o)
                env = GDALConfigEnv(given) if given or r.random() < 0.5 else GDALConfigEnv()
                o = dict(o)
                if r.random() < 0.5:
                    c = credentials(r)
                    m.check(env.with_aws_credentials(c) is env, "builder", "with_aws_credentials does not return the object")
                    o.update({k: c[n] for k, n in CRED.items()})
                    m.event("credentials")
                elif r.random() < 0.3:
                    env.with_aws_credentials(None)
                given["VF_UNTOUCHED"] = "changed after construction"
                envs.append([env, o])
                return len(envs) - 1

            def block(depth):
                for _ in range(int(r.integers(1, 4))):
                    u = r.random()
                    if u < 0.65 and depth < 6 or depth == 0:
                        e = new()
                        env, o = envs[e]
                        program.append(("enter", e, sorted(o)))
                        for k in o:
                            ku = k.upper()
                            m.event("was-set" if model.set.get(ku) is not None else "was-environment" if ku in os.environ else "was-unset")
                        m.event("scope")
                        m.event("nested", depth > 0)
                        if depth_of.get(e):
                            m.event("same-object-nested")
                        depth_of[e] = depth_of.get(e, 0) + 1
                        boom = r.random() < 0.25
                        mark = len(model.stack)
                        caught = None
                        try:
                            with env:
                                model.enter(o)
                                observe(model, "inside", r.random() < 0.3)
                                block(depth + 1)
                                if boom:
                                    raise BOOMS[int(r.integers(len(BOOMS)))]("" if r.random() < 0.2 else i)
                        except tuple(BOOMS) as ex:
                            caught = ex
                        m.check((caught is not None) == boom, "exception", "an exception raised in the scope did not come out of it" if boom else "exception")
                        if boom:
                            m.event("exception")
                        model.exit()
                        depth_of[e] -= 1
                        assert len(model.stack) == mark
                        program.append(("exit", e, boom))
                        observe(model, "restored", r.random() < 0.3)
                        m.event("restored", len(o))
                    elif u < 0.8:
                        k = str(r.choice(KEYS[:7]))
                        v = "user-%d" % r.integers(1e6) if r.random() < 0.7 else None
                        gdal.SetConfigOption(k, v)
                        model.set[k] = v
                        program.append(("set", k, v))
                        m.event("set-inside")
                    elif u < 0.9 and envs:
                        e = int(r.integers(len(envs)))
                        c = credentials(r)
                        envs[e][0].with_aws_credentials(c)
                        envs[e][1].update({k: c[n] for k, n in CRED.items()})
                        program.append(("credentials", e))
                        if depth_of.get(e):
                            m.event("credentials-inside")
                        observe(model, "credentials-early")
                    else:
                        k = str(r.choice(KEYS[:7]))
                        if r.random() < 0.5:
                            os.environ[k] = "env2-%d" % r.integers(1e6)
                        else:
                            os.environ.pop(k, None)
                        program.append(("environ", k))
                        m.event("environment-changed")
                        observe(model, "environment")

            block(0)
            m.seen(repr(program))
    # defaults: options can be scoped on top of the toolkit's defaults, which leave everything else alone
    with m.case({"defaults": True}):
        for k in watch:
            gdal.SetConfigOption(k, None)
            os.environ.pop(k, None)
        gdal.SetConfigOption("VF_UNTOUCHED", "mine")
        set_gdal_default_configuration()
        d = {k: gdal.GetConfigOption(k) for k in DEFAULT_KEYS}
        m.check(all(v for v in d.values()), "defaults", str(d))
        with GDALConfigEnv({k: "1" for k in DEFAULT_KEYS}):
            m.check(all(gdal.GetConfigOption(k) == "1" for k in DEFAULT_KEYS), "inside", "scope over the defaults")
            set_gdal_default_configuration()
            m.check({k: gdal.GetConfigOption(k) for k in DEFAULT_KEYS} == d, "defaults", "setting the defaults again")
        m.check({k: gdal.GetConfigOption(k) for k in DEFAULT_KEYS} == d, "restored", "defaults not restored")
        m.check(gdal.GetConfigOption("VF_UNTOUCHED") == "mine", "defaults", "unrelated option changed")
