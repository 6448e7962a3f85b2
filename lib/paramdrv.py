"""The parameter sets: the table the Python code works with, and their derivation."""
from fprdrv import d8


def run(env, sess):
    for g in sess["gen"]:
        op, a = g["op"], g["a"]
        if op == "table":
            def table():
                import falcon
                p = falcon.Params[a["n"]]
                return {"n": int(p["n"]), "sigma": d8(p["sigma"]), "sigmin": d8(p["sigmin"]),
                        "bound": int(p["sig_bound"]), "len": int(p["sig_bytelen"])}
            env.call(op, a, table)
            continue
        from scripts import parameters
        if op == "smooth":
            def smooth():
                kw = {} if g["default"] else {"normalized": a["norm"]}
                return {"y": d8(parameters.smooth(a["num"] / a["den"], a["m"], **kw))}
            env.call(op, a, smooth)
            continue

        def derived():
            try:
                p = parameters.Falcon[a["n"]] if g["made"] else parameters.FalconParam(a["n"], a["bits"])
            except AssertionError:
                return {"refused": True}
            six = lambda k: [int(getattr(p, k + s)) for s in (      # noqa: E731
                "_blocksize", "_blocksize_opt", "_coresvp_c", "_coresvp_q", "_coresvp_opt_c", "_coresvp_opt_q")]
            return {"refused": False, "gs": d8(p.gs_norm), "sigma": d8(p.sigma), "sigmin": d8(p.sigmin), "sigmax": d8(p.sigmax),
                    "tau": d8(p.tailcut_rate), "rej": d8(p.rejection_rate),
                    "ints": [p.n, p.q, p.max_sig_norm, p.sq_max_sig_norm, p.sig_bytesize, p.target_bitsec, p.leg_sq_max_sig_norm],
                    "key": six("keyrec"), "forge": six("forgery")}
        env.call(op, a, derived)
