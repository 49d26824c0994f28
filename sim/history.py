"""Random histories (operation lists) for one environment."""
FAULTS = ("bad", "vars", "surge", "lin", "qp", "interrupt", "clock", "rng", "init", "initbad")


def fractions(rng, n=10):
    k = rng.random()
    if k < 0.15:
        return [round(rng.choice([0.0, 1.0]), 3) for _ in range(n)]
    if k < 0.25:
        return [0.5]
    return [round(rng.choice([rng.random(), rng.random(), 0.0, 1.0]), 4) for _ in range(n)]


def lin_fault(rng, kinds=("nan", "garbage", "onenan", "inf", "zero", "raise")):
    kind = rng.choice(kinds)
    calls = "all" if rng.random() < 0.5 else sorted(rng.sample(range(5), rng.choice([1, 1, 2])))
    return [kind, calls]


def reset_op(rng, enabled, cfg, seeded=None):
    op = {"op": "reset"}
    if seeded is None:
        seeded = rng.random() < 0.6
    if seeded:
        op["seed"] = rng.randrange(10 ** 6)
    if cfg["kind"] in ("easy", "anm6") and rng.random() < 0.4:
        op["options"] = date(rng)
    if "initbad" in enabled and rng.random() < 0.3:
        op["ctl"] = {"bad": rng.choice([1, 1, 2, 3])}
    if "init" in enabled and rng.random() < 0.12:
        op["ctl"] = {"init": [rng.choice(["short", "long", "exc"]), rng.choice([1, 1, 2])]}
        if op["ctl"]["init"][1] > 1:
            op["ctl"]["bad"] = op["ctl"]["init"][1] - 1
    return op


def date(rng):
    return rng.choice([[2020, 12, 31, 23, 45], [2020, 2, 28, 12, 0], [2021, 1, 1], [2019, 12, 31, 23, 59, 30],
                       [2020, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), 15]])


def step_op(rng, enabled, rate=0.12):
    op = {"op": "step", "a": fractions(rng)}
    if rng.random() < 0.1:
        op["f32"] = True
    if enabled and rng.random() < rate * 2:
        k = rng.choice(sorted(enabled))
        if k == "bad":
            op["bad"] = rng.choice(["nan", "high", "low", "shape", "shape2", "complex", "str", "none"])
        elif k == "vars":
            op["ctl"] = {"vars": rng.choice(["short", "long", "exc"])}
        elif k == "surge":
            op["ctl"] = {"surge": rng.choice([1e3, 1e4, 30.0, 8.0, 3.0, 1.5])}
        elif k == "lin":
            op["fault"] = {"lin": lin_fault(rng)}
        elif k == "qp":
            op["fault"] = {"qp": [rng.choice(["error", "none", "interrupt"]), [rng.choice([0, 0, 1, 2])]]}
        elif k == "interrupt":
            op["fault"] = {"interrupt": rng.choice([rng.randint(1, 60), rng.randint(1, 400), rng.randint(1, 1500)])}
        elif k == "clock":
            op["fault"] = {"clock": rng.choice([-1e6, 3600.0, 1e7]), "solver_clock": rng.choice([25, 50, 75, 200, 1000])}
        elif k == "rng":
            op["fault"] = {"rng": rng.randrange(10 ** 6)}
    return op


def history(rng, cfg, n, enabled, seeded_first=True, reset_rate=0.1):
    ops = [reset_op(rng, set(enabled) - {"init", "initbad", "interrupt"}, cfg, seeded_first)]
    for _ in range(n):
        if rng.random() < reset_rate:
            op = reset_op(rng, enabled, cfg)
            if "interrupt" in enabled and rng.random() < 0.25:
                op["fault"] = {"interrupt": rng.choice([rng.randint(1, 60), rng.randint(1, 600)])}
            elif "qp" in enabled and rng.random() < 0.15:
                op["fault"] = {"qp": [rng.choice(["error", "none"]), [0]]}
            elif "lin" in enabled and rng.random() < 0.25:
                op["fault"] = {"lin_draws": [rng.choice(["nan", "garbage", "inf"]), rng.randint(1, 4)]}
            ops.append(op)
        else:
            ops.append(step_op(rng, enabled))
        if rng.random() < 0.25:
            op = reset_op(rng, set(enabled) & {"initbad"}, cfg)
            op["if_term"] = True
            ops.append(op)
    return ops


def swarm(rng, allowed, p=0.5):
    return {k for k in allowed if rng.random() < p}
