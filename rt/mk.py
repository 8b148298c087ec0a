"""Builds real arcticpy objects from case values."""
import numpy as np


def ac():
    import arcticpy
    return arcticpy


def traps(kind, sp):
    a = ac()
    if kind == "slow":
        return [a.Trap(density=d, release_timescale=r, capture_timescale=c) for d, r, c in sp]
    return [a.TrapInstantCapture(density=d, release_timescale=r) for d, r, c in sp]


def manager(kind, sp, room):
    from arcticpy import trap_managers as tm
    cls = {"slow": tm.TrapManager, "instant": tm.TrapManagerInstantCapture, "track": tm.TrapManagerTrackTime}[kind]
    return cls(traps=traps(kind, sp), max_n_transfers=room)


def ccd1(c):
    return ac().CCD(full_well_depth=c[0], well_notch_depth=c[1], well_fill_power=c[2])


def ccd(d):
    return ac().CCD(fraction_of_traps_per_phase=list(d["frac"]), full_well_depth=d["full"],
                    well_notch_depth=d["notch"], well_fill_power=d["power"])


def roe(d):
    a = ac()
    ty = int if d["dtype"] == "int" else float
    if d["roe"] == "std":
        return a.ROE(dwell_times=list(d["dwell"]), empty_traps_for_first_transfers=d["first"],
                     empty_traps_between_columns=not d["keep"], force_release_away_from_readout=d["force"],
                     express_matrix_dtype=ty)
    if d["roe"] == "inj":
        return a.ROEChargeInjection(dwell_times=list(d["dwell"]), n_pixel_transfers=d["n"],
                                    empty_traps_between_columns=not d["keep"],
                                    force_release_away_from_readout=d["force"], express_matrix_dtype=ty)
    return a.ROETrapPumping(dwell_times=list(d["dwell"]), n_pumps=d["n"], empty_traps_for_first_transfers=d["first"],
                            express_matrix_dtype=ty)


def groups(d):
    gs = [traps(g["kind"], g["species"]) for g in d["groups"]]
    return gs[0] if len(gs) == 1 else gs


def rng_(w):
    return None if w is None else (w if isinstance(w, int) else range(*w))


def kwargs(d, prefix):
    return {prefix + "_ccd": ccd(d["ccd"]), prefix + "_roe": roe(d), prefix + "_traps": groups(d),
            prefix + "_express": d["express"], prefix + "_offset": d["offset"]}


def arr(x):
    return np.array(x, dtype=float)
