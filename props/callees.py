"""contracts of shared functions, assumed at calls made inside other functions; each is itself proved where its own property is checked"""
OS = "sidetopics.util.overflow_safe."


def use_safe_log(v):
    """safe_log(x)[i] = slog(x[i]) (what slog is: contract C06.safe_log)"""
    def stub(E, fi, args, kw):
        import npmodel as N
        import terms as T
        x, out = args[0], (args[1] if len(args) > 1 else kw.get("out"))
        if not hasattr(x, "shape_") or x.dtype not in ("f8", "f4"):
            return NotImplemented
        r = N.elementwise(E, lambda e: T.app("slog" if x.dtype == "f8" else "slogf", e), [x], x.dtype)
        if out is None:
            return r
        N.setitem(E, out, slice(None), r)
        return out
    v.use_contract(OS + "safe_log", stub)


def slog(v, x):
    if v.sym:
        import terms as T
        return T.app("slog", T.P(x))
    return v.ite(x >= 1E-300, lambda: v.ln(x), lambda: v.ln(1E-300))


def use_some_number(v, *names):
    """measurements only reported: they return some number and change nothing (bounded: contract C12)"""
    for n in names:
        v.use_contract(n, lambda E, fi, args, kw: E.fresh("measured", "R"))
