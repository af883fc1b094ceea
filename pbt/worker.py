"""Runs the code under test (imported from /repo/src) in the project's interpreter.

Reads requests on stdin, answers on stdout (codec.py). Requests:
  ("batch", ops)        run calls in this process
  ("isolated", batches) run each batch in a process of its own, forked before any call
  ("cli", case)         run command-line cases in a forked process inside a scratch folder
"""
import os
import sys

_out = os.fdopen(os.dup(1), "wb")
_in = os.fdopen(os.dup(0), "rb")
_null = os.open(os.devnull, os.O_RDWR)
os.dup2(_null, 0)
os.dup2(_null, 1)
if not os.environ.get("VERIF_DEBUG"):
    os.dup2(_null, 2)

import hashlib
import importlib
import io
import pickle
import shutil
import signal
import struct
import warnings

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
_src = os.environ.get("VERIF_SRC", "/repo/src")
sys.path.insert(0, _src)

if sys.implementation.name == "pypy":
    # dask asks for object sizes, which PyPy refuses to give; CPython answers
    sys.getsizeof = lambda obj, default=64: default

warnings.simplefilter("ignore")
import numpy as np

import codec
import climate_indices

if os.path.realpath(os.path.dirname(climate_indices.__file__)) != os.path.realpath(_src + "/climate_indices"):
    raise SystemExit("wrong library imported: " + climate_indices.__file__)

from climate_indices import compute, eto, indices, lmoments, palmer, utils

import logging

logging.disable(logging.CRITICAL)

_MODULES = {
    "compute": compute,
    "eto": eto,
    "indices": indices,
    "lmoments": lmoments,
    "palmer": palmer,
    "utils": utils,
}


def _lookup(path):
    module, rest = path.split(".", 1)
    obj = _MODULES[module]
    for name in rest.split("."):
        obj = getattr(obj, name)
    return obj


def _error(e):
    return codec.RemoteError(type(e).__name__, [c.__name__ for c in type(e).__mro__], str(e))


def run_batch(ops, env):
    results = []
    for op in ops:
        fn = op["fn"]
        args = op.get("args", [])
        kwargs = op.get("kwargs", {})
        dec = lambda x: codec.decode(x, _lookup, lambda name: env[name])
        args, kwargs = dec(args), dec(kwargs)
        if fn == "@put":
            env[args[0]] = args[1]
            results.append({"value": None})
            continue
        if fn == "@edit":  # the caller writes other values into an array of its own
            env[args[0]][...] = args[1]
            results.append({"value": None})
            continue
        if fn == "@get":
            results.append({"value": _copy(env[args[0]])})
            continue
        res = {}
        try:
            function = _lookup(fn)
        except AttributeError as e:
            res["missing"] = str(e)
            results.append(res)
            continue
        try:
            with np.errstate(all="ignore"):
                value = function(*args, **kwargs)
            if op.get("keep"):
                env[op["keep"]] = value
            res["value"] = _copy(value)
        except Exception as e:  # the code under test may raise anything
            res["error"] = _error(e)
        if op.get("after"):
            res["args_after"] = _copy(args)
            res["kwargs_after"] = _copy(kwargs)
        results.append(res)
    return results


def _copy(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_copy(v) for v in x]
    if isinstance(x, tuple):
        return tuple(_copy(v) for v in x)
    return x


def in_child(function, timeout):
    """Run function() in a forked process (its own group), return its result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.setpgid(0, 0)
            os.close(r)
            signal.alarm(timeout)
            buf = io.BytesIO()
            codec.send(buf, function())
            with os.fdopen(w, "wb") as stream:
                stream.write(buf.getvalue())
            code = 0
        except BaseException as e:
            try:
                buf = io.BytesIO()
                codec.send(buf, {"harness_error": repr(e)})
                with os.fdopen(w, "wb") as stream:
                    stream.write(buf.getvalue())
                code = 0
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as stream:
        data = stream.read()
    _, status = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if not data:
        return {"died": status}
    # results are passed on as they are (still encoded)
    return pickle.loads(data[8:])


# --------------------------------------------------------------------------- command line


def _subst(x, d):
    if isinstance(x, str):
        return x.replace("{d}", d)
    if isinstance(x, list):
        return [_subst(v, d) for v in x]
    return x


def _write_nc(spec, d):
    import pandas as pd
    import xarray as xr

    coords = {}
    for name, c in spec["coords"].items():
        if c.get("dates"):
            coords[name] = pd.date_range(c["dates"][0], periods=c["dates"][1], freq=c["dates"][2])
            if c.get("offset_days"):
                coords[name] = coords[name] + pd.to_timedelta(c["offset_days"], unit="D")
            if c.get("one"):
                stamps = coords[name].values.copy()
                stamps[c["one"][0]] += np.timedelta64(c["one"][1], "D")
                coords[name] = pd.DatetimeIndex(stamps)
        else:
            coords[name] = ((name,), c["values"], c.get("attrs", {}))
    variables = {}
    encoding = {}
    for name, v in spec["vars"].items():
        variables[name] = (tuple(v["dims"]), v["values"], v.get("attrs", {}))
        if v.get("encoding"):
            encoding[name] = v["encoding"]
    ds = xr.Dataset(variables, coords=coords, attrs=spec.get("attrs", {}))
    ds.to_netcdf(os.path.join(d, spec["path"]), encoding=encoding, engine="h5netcdf" if encoding or spec.get("hdf5") else None)
    ds.close()


def _listing(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = hashlib.sha256(f.read()).hexdigest()
    return out


def _read_nc(path):
    import xarray as xr

    out = {"vars": {}, "coords": {}}
    try:
        with xr.open_dataset(path) as ds:
            out["attrs"] = {k: str(v) for k, v in ds.attrs.items()}
            for name, v in ds.data_vars.items():
                out["vars"][name] = {"dims": list(v.dims), "values": v.values, "attrs": {k: str(x) for k, x in v.attrs.items()}}
            for name, v in ds.coords.items():
                values = v.values
                if values.dtype.kind in "Mm":
                    values = values.astype("datetime64[D]").astype(str).tolist()
                out["coords"][name] = {"dims": list(v.dims), "values": values}
    except Exception as e:
        return {"error": _error(e)}
    return out


def run_cli(case, d):
    import argparse
    import multiprocessing
    import tempfile

    from climate_indices import __main__ as cmd_main, __spi__ as cmd_spi

    tmp = os.path.join(d, "_tmp")
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    os.chdir(d)
    report = []
    namespaces = {}
    for step in case["steps"]:
        kind = step["op"]
        if kind == "write":
            _write_nc(step["file"], d)
            report.append(None)
        elif kind == "remove":
            os.remove(os.path.join(d, step["path"]))
            report.append(None)
        elif kind == "text":
            with open(os.path.join(d, step["path"]), "w") as f:
                f.write(step["content"])
            report.append(None)
        elif kind == "run":
            before = _listing(d)
            cpus = step.get("cpus", 3)
            multiprocessing.cpu_count = lambda cpus=cpus: cpus
            os.cpu_count = lambda cpus=cpus: cpus
            res = {}
            try:
                if step["cmd"] == "process":
                    if step.get("same_arguments") is not None:
                        arguments = namespaces[step["same_arguments"]]
                    else:
                        arguments = argparse.Namespace(**{k: _subst(v, d) for k, v in step["args"].items()})
                    namespaces[len(report)] = arguments
                    cmd_main.process_climate_indices(arguments)
                else:
                    sys.argv = [step["cmd"]] + [str(a) for a in _subst(step["argv"], d)]
                    {"main": cmd_main, "spi": cmd_spi}[step["cmd"]].main()
                res["ok"] = True
            except SystemExit as e:
                res["error"] = codec.RemoteError("SystemExit", ["SystemExit"], str(e.code))
            except Exception as e:
                res["error"] = _error(e)
            after = _listing(d)
            res["created"] = sorted(p for p in after if p not in before)
            res["modified"] = sorted(p for p in after if p in before and after[p] != before[p])
            res["deleted"] = sorted(p for p in before if p not in after)
            res["files"] = {}
            for p in res["created"] + res["modified"]:
                if p.endswith(".nc") and not p.startswith("_tmp"):
                    res["files"][p] = _read_nc(os.path.join(d, p))
            report.append(res)
        elif kind == "library":
            report.append(run_batch(step["ops"], {}))
        else:
            raise ValueError(kind)
    return report


def handle(request, base):
    kind, payload = request
    if kind == "batch":
        return run_batch(payload, {})
    if kind == "isolated":
        return [in_child(lambda b=b: run_batch(b, {}), 150) for b in payload]
    if kind == "cli":
        d = os.path.join(base, "case")
        os.mkdir(d)
        try:
            payload = codec.decode(payload, _lookup)
            return in_child(lambda: run_cli(payload, d), 180)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    raise ValueError(kind)


def main():
    base = os.environ["VERIF_SCRATCH"]
    if os.environ.get("VERIF_CLI"):
        import pandas  # noqa: F401
        import xarray  # noqa: F401
        from climate_indices import __main__, __spi__  # noqa: F401

        # touch the NetCDF backend once, so that forked cases need not import it
        p = os.path.join(base, "warm.nc")
        xarray.Dataset({"a": ("x", np.zeros(2))}).to_netcdf(p)
        xarray.open_dataset(p).close()
        os.remove(p)
    codec.send(_out, "ready")
    while True:
        try:
            request = codec.recv_raw(_in)
        except EOFError:
            return
        try:
            answer = handle(request, base)
        except BaseException as e:
            import traceback

            answer = {"harness_error": traceback.format_exc()[-2000:] + repr(e)}
        codec.send(_out, answer)


main()
