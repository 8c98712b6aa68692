"""The run (runLSSTSimulation, runDESSimulation) against the contracts of everything it calls."""
from pyvc.contract import contract, also
import ast
from pyvc import lib as L
from contracts.common import *

M = "sorcha.sorcha"
MOD = "sorcha.modules."
R = "sorcha.readers."


class Tok:
    """a column of a chunk's table: a sum of columns"""

    def __init__(self, obs, parts):
        self.obs, self.parts = obs, tuple(sorted(parts))

    def sym_binop(self, I, op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, Tok) and isinstance(b, Tok):
            return Tok(self.obs, a.parts + b.parts)
        return NotImplemented

    def sym_getattr(self, I, name):
        if name in ("copy", "to_numpy"):
            return Prim(lambda I, a, k: self, name)
        if name == "values":
            return self
        raise Unsupported("column ." + name)

    def sym_len(self, I):
        return SV("int", self.obs.m)


class Index:
    def __init__(self, m):
        self.m = m

    def sym_len(self, I):
        return SV("int", self.m)


class Obs:
    """the table of the chunk [lo, hi), m rows, after the given stages"""

    def __init__(self, lo, hi, m, stages=(), cols=None, kind="observations"):
        self.lo, self.hi, self.m, self.stages, self.kind = lo, hi, m, tuple(stages), kind
        self.cols = dict(cols or {})
        self.tag = self  # which table this is, copies included

    def sym_len(self, I):
        return SV("int", self.m)

    def sym_getattr(self, I, name):
        if name == "index":
            return Index(self.m)
        if name == "empty":
            return SV("bool", self.m == 0)
        if name == "shape":
            return (SV("int", self.m), SV("int", I.ctx.fresh("ncol", "int")))
        if name == "reset_index":
            def f(I, a, k):
                return None if k.get("inplace") else self
            return Prim(f, name)
        if name == "copy":
            def cp(I, a, k):
                o = Obs(self.lo, self.hi, self.m, self.stages, self.cols, self.kind)
                o.tag = self.tag
                return o
            return Prim(cp, name)
        raise Unsupported("table ." + name)

    def sym_getitem(self, I, k):
        if isinstance(k, str):
            return self.cols.get(k) or Tok(self, (k,))
        raise Unsupported("table index")

    def sym_setitem(self, I, k, v):
        if not (isinstance(k, str) and isinstance(v, Tok)):
            raise Unsupported("table column")
        self.cols[k] = v


def same(a, b):
    return isinstance(a, Obs) and isinstance(b, Obs) and a.tag is b.tag


def number(x, y):
    return to_real(x) == to_real(y) if isinstance(x, SV) and x.sort in ("real", "int") else z3.BoolVal(False)


def all_eq(got, want):
    """the same settings, in order; numbers by their values"""
    if len(got) < len(want):
        return z3.BoolVal(False)
    return z3.And([number(x, y) if isinstance(y, SV) else z3.BoolVal(not isinstance(x, SV) and (x is y or x == y)) for x, y in zip(got, want)] + [z3.BoolVal(True)])


class Whole:
    """the concatenation of everything in a list of results"""

    def __init__(self, nm):
        self.nm = nm

    def sym_getattr(self, I, name):
        raise Unsupported("results ." + name)


def unknown():
    raise Unsupported("table of results")


class Acc:
    """a list the chunks' results are appended to"""

    def __init__(self, g, nm):
        self.g, self.nm = g, nm

    def havoc(self, c, name):
        return self

    def sym_getattr(self, I, name):
        if name == "append":
            def f(I, a, k):
                self.g.acc.append((self.nm, a[0]))
            return Prim(f, name)
        raise Unsupported("list ." + name)

    def sym_truth(self, I):
        some = I.ctx.branch(I.ctx.fresh("some_" + self.nm, "bool"))
        if not some:
            self.g.empty.add(self.nm)
        else:
            self.g.some.add(self.nm)
        return some

    def sym_len(self, I):
        n = I.ctx.fresh("len_" + self.nm, "int")
        I.ctx.assume(n >= 0)
        return SV("int", n)


FLAGS_A = ["trailing_losses_on", "vignetting_on", "randomization_on"]
FLAGS_B = ["snr_limit_on", "mag_limit_on", "fading_function_on", "bright_limit_on", "ssp_linking_on"]
FLAGS_D = ["distance_cut_on", "motion_cut_on", "des_discovery_on"]
DES = "sorcha.des"


class G:
    pass


def pipeline(V, external, flags, camera, brute, ret, with_stats, complex_=False, des=False, about=None, lc=False, visits=False):
    """about: the obligations (by the beginning of their names) that are of interest; None for all"""
    c = V.ctx

    def ob(name, t):
        if about is None or any(name.startswith(a) for a in about):
            c.oblige(name, t)

    g = G()
    run = DES + ":runDESSimulation" if des else M + ":runLSSTSimulation"
    survey = "DES" if des else "rubin_sim"
    n, size = V.int("n_objects", 0), V.int("chunk", 1)
    g.n, g.size = n.t, size.t
    g.P = z3.IntVal(0)
    g.cur = None
    g.acc = []
    g.empty, g.some = set(), set()
    g.written, g.stats_of, g.reads, g.calls = [], [], [], 0

    def cfg(**kw):
        o = Obj("cfg")
        o.attrs.update(kw)
        return o

    # the settings are numbers in their documented ranges
    N = {k: V.real(k, 0, 1) for k in ("peak", "eff", "deseff")}
    N.update({k: V.int(k, 1) for k in ("nobs", "ntr", "win")})
    N.update({k: V.real(k, 0) for k in ("sep", "tmax", "dlo", "mlo", "dup", "mup", "width")})
    N["night"] = V.real("night", 0, 24)
    T = lambda s: SV("str", z3.StringVal(s))
    sc = cfg(
        input=cfg(ephemerides_type="external" if external else "ar", aux_format="csv", eph_format="csv", pointing_sql_query="Q",
                  size_serial_chunk=size),
        filters=cfg(observing_filters=["r", "g"], mainfilter=None, othercolours=None),
        activity=cfg(comet_activity="act" if complex_ else None), lightcurve=cfg(lc_model="lc" if lc else None),
        fov=cfg(camera_model=camera, footprint_path="FP"), expert=cfg(brute_force=brute, snr_limit=V.real("snr_limit"), mag_limit=V.real("mag_limit")),
        fadingfunction=cfg(fading_function_on=flags["fading_function_on"], fading_function_peak_efficiency=N["peak"], fading_function_width=N["width"], des_transient_efficency=N["deseff"]),
        saturation=cfg(bright_limit_on=flags["bright_limit_on"], bright_limit="bright"),
        phasecurves=cfg(phase_function="HG"), output=cfg(output_format="csv"),
        linkingfilter=cfg(ssp_linking_on=flags["ssp_linking_on"], ssp_detection_efficiency=N["eff"], ssp_number_observations=N["nobs"], ssp_number_tracklets=N["ntr"],
                          ssp_track_window=N["win"], ssp_separation_threshold=N["sep"], ssp_maximum_time=N["tmax"], ssp_night_start_utc=N["night"], drop_unlinked="drop",
                          distance_cut_upper=N["dup"], distance_cut_lower=N["dlo"], motion_cut_upper=N["mup"], motion_cut_lower=N["mlo"], **{f: flags.get(f, False) for f in FLAGS_D}))
    for f in FLAGS_A + ["snr_limit_on", "mag_limit_on"]:
        sc.attrs["expert"].attrs[f] = flags[f]
    args = cfg(loglevel=False, paramsinput="PARAMS", orbinfile="ORBITS", complex_parameters="COMPLEX", input_ephemeris_file="EPHEM", pointing_database="DB",
               surveyname=survey, visits="VISITS" if visits else None, stats="statsfile" if with_stats else None, outpath="OUT", outfilestem="stem", _rngs="RNGS")
    g.valid = False

    def validate(I, a, k):
        g.valid = True

    args.attrs["validate_arguments"] = Prim(validate, "validate_arguments")
    pointings = Obj("pointings")
    COL = Obj("colours")

    def use(q, f):
        V.use(q, f)

    use(MOD + "PPGetMainFilterAndColourOffsets:PPGetMainFilterAndColourOffsets", lambda I, v: ("r", COL))
    use("sorcha.utilities.sorchaConfigs:PrintConfigsToLog", lambda I, v: None)

    def rpd(I, v):
        ob("arguments: checked before anything is read", g.valid)
        vals = list(v.values())
        ob("pointings: own database, filters, query and survey", all(x is y or x == y for x, y in zip(vals, ["DB", sc.attrs["filters"].attrs["observing_filters"], "Q", survey] + ([flags["fading_function_on"]] if des else []))) and len(vals) >= 4 + des)
        return pointings

    use(MOD + "PPReadPointingDatabase:PPReadPointingDatabase", rpd)
    use("sorcha.ephemeris.simulation_setup:precompute_pointing_information", lambda I, v: pointings)

    def init_csv(I, v):
        v["self"].attrs.update(filename=v["filename"], sep=v.get("sep", "csv"), obj_id_table=None)

    use(R + "CSVReader:CSVDataReader.__init__", init_csv)

    def init_eph(I, v):
        v["self"].attrs.update(filename=v["filename"], sep=v.get("inputformat"))

    use(R + "EphemerisReader:EphemerisDataReader.__init__", init_eph)

    class IdTable:
        def sym_len(self, I):
            return n

    def check_ids(I, v):
        o = v["self"]
        aux = o.attrs["aux_data_readers"]
        g.reader = o
        names = [(r.cls.name, r.attrs.get("filename")) for r in aux]
        ob("inputs: the orbit file is the primary table", names[:1] == [("OrbitAuxReader", "ORBITS")])
        ob("inputs: every parameter file is joined", sorted(names[1:]) == sorted([("CSVDataReader", "PARAMS")] + ([("CSVDataReader", "COMPLEX")] if complex_ or lc else [])))
        er = o.attrs["ephem_reader"]
        ob("inputs: ephemerides come from the ephemeris file exactly when external",
                 (er is not None and er.attrs.get("filename") == "EPHEM") if external else er is None)
        for r in aux:
            r.attrs["obj_id_table"] = IdTable()

    use(R + "CombinedDataReader:CombinedDataReader.check_aux_object_ids", check_ids)

    def read(kind):
        def f(I, v):
            b = v.get("block_size")
            bs = to_int(b) if b is not None else g.n
            ob("reads one block of the configured size", bs == g.size)
            ob("a block is only read while objects are left", g.P < g.n)
            ob("only one block is read per round", len(g.reads) == 0)
            lo = g.P
            hi = z3.If(lo + bs < g.n, lo + bs, g.n)
            g.P = hi
            m = c.fresh("rows", "int")
            c.assume(m >= 0 if kind == "observations" else m >= 1)
            g.cur = Obs(lo, hi, m, (), kind=kind)
            g.reads.append(g.cur)
            return g.cur
        return f

    use(R + "CombinedDataReader:CombinedDataReader.read_block", read("observations"))
    use(R + "CombinedDataReader:CombinedDataReader.read_aux_block", read("orbits"))

    def stage(nm, filt=False, check=None, newkind=None, rows=False):
        def f(I, v):
            o = next(iter(v.values()))
            ob(f"{nm}: works on the current table of the chunk", same(o, g.cur))
            if not isinstance(o, Obs):
                raise Unsupported("stage argument")
            if rows:
                ob(f"{nm}: only called with detections", o.m >= 1)
            if check is not None:
                ob(f"{nm}: with the configured settings", check(v, o))
            m = o.m
            if filt:
                m = c.fresh("rows_" + nm, "int")
                c.assume(z3.And(m >= 0, m <= o.m))
            if newkind:
                m = c.fresh("rows_eph", "int")
                c.assume(m >= 0)
            if nm in o.stages:
                ob(f"{nm}: applied once", False)
            g.cur = Obs(o.lo, o.hi, m, o.stages + (nm,), o.cols, newkind or o.kind)
            return g.cur
        return f

    def eq(*want):
        def ch(v, o):
            vals = list(v.values())
            return all_eq(vals[1:], want)
        return ch

    fl = sc.attrs["filters"].attrs["observing_filters"]
    use(MOD + "PPFaintObjectCullingFilter:PPFaintObjectCullingFilter", stage("culling", filt=True, check=lambda v, o: list(v.values())[1] is pointings and list(v.values())[2] == "r" and list(v.values())[3] == fl and list(v.values())[4:6] == ["lc" if lc else None, "act" if complex_ else None]))
    use("sorcha.ephemeris.simulation_driver:create_ephemeris", stage("ephemeris", newkind="observations", check=lambda v, o: list(v.values())[1] is pointings))
    use(MOD + "PPMatchPointingToObservations:PPMatchPointingToObservations", stage("match", filt=True, check=lambda v, o: list(v.values())[1] is pointings))
    use(MOD + "PPCalculateApparentMagnitude:PPCalculateApparentMagnitude",
        stage("apparent", rows=True, check=lambda v, o: (lambda a: a[1] == "HG" and a[2] == "r" and a[3] is COL and a[4] == fl and a[5] == ("act" if complex_ else None) and a[6] == ("lc" if lc else None))(list(v.values()))))

    def trailing(I, v):
        o = next(iter(v.values()))
        ob("trailing loss: of the current table, point-source model", same(o, g.cur) and list(v.values())[1] == "circularPSF")
        return Tok(o, ("trailing-loss",))

    use(MOD + "PPTrailingLoss:PPTrailingLoss", trailing)

    def vign(I, v):
        o = next(iter(v.values()))
        ob("vignetting: of the current table", same(o, g.cur))
        return Tok(o, ("vignetted-depth",))

    use(MOD + "PPVignetting:vignettingEffects", vign)

    def base_parts(o):
        if not isinstance(o, Obs):
            return False, False
        p, d = o.cols.get("PSFMagTrue"), o.cols.get("fiveSigmaDepth_mag")
        want_p = ("trailedSourceMagTrue", "trailing-loss") if flags["trailing_losses_on"] is True else ("trailedSourceMagTrue",)
        want_d = ("vignetted-depth",) if flags["vignetting_on"] is True else ("fieldFiveSigmaDepth_mag",)
        return p is not None and p.parts == want_p, d is not None and d.parts == want_d

    def base(o):
        return all(base_parts(o))

    use(MOD + "PPAddUncertainties:addUncertainties", stage("uncertainties", check=lambda v, o: base(o) and list(v.values())[1] is sc and list(v.values())[2] == "RNGS"))
    use(MOD + "PPRandomizeMeasurements:randomizeAstrometryAndPhotometry", stage("randomise", filt=True, check=lambda v, o: list(v.values())[1] is sc and list(v.values())[2] == "RNGS"))
    use(MOD + "PPApplyFOVFilter:PPApplyFOVFilter", stage("fov", filt=True, check=lambda v, o: list(v.values())[1] is sc and list(v.values())[2] == "RNGS" and (list(v.values())[3] == ("VISITS" if visits else None) and list(v.values())[4] is g.footprint)))
    use(MOD + "PPSNRLimit:PPSNRLimit", stage("snr", filt=True, check=lambda v, o: number(list(v.values())[1], sc.attrs["expert"].attrs["snr_limit"])))
    use(MOD + "PPMagnitudeLimit:PPMagnitudeLimit", stage("mag", filt=True, check=lambda v, o: number(list(v.values())[1], sc.attrs["expert"].attrs["mag_limit"])))
    if des:
        use(MOD + "DESFadingFunctionFilter:DESFadingFunctionFilter", stage("fading", filt=True, check=eq(N["deseff"], "RNGS")))
        use(MOD + "PPDistanceandMotionCuts:distance_cut", stage("distance", filt=True, check=eq(N["dup"], N["dlo"])))
        use(MOD + "PPDistanceandMotionCuts:motion_cut", stage("motion", filt=True, check=eq(N["mup"], N["mlo"])))
        use(MOD + "DESDiscoveryFilter:DESDiscoveryFilter", stage("discovery", filt=True))
    else:
        use(MOD + "PPFadingFunctionFilter:PPFadingFunctionFilter", stage("fading", filt=True, check=eq(N["peak"], N["width"], "RNGS")))
    use(MOD + "PPBrightLimit:PPBrightLimit", stage("bright", filt=True, check=lambda v, o: list(v.values())[1] == fl and list(v.values())[2] == "bright"))
    use(MOD + "PPLinkingFilter:PPLinkingFilter", stage("linking", filt=True, check=lambda v, o: z3.And(all_eq(list(v.values())[1:8], [N[k] for k in ("eff", "nobs", "ntr", "win", "sep", "tmax", "night")]), z3.BoolVal("drop" in list(v.values())[8:]))))
    g.footprint = None

    def fp(I, v):
        ob("the configured footprint file", list(v.values())[1] == "FP" and list(v.values())[2] == survey)
        g.footprint = v["self"]

    use(MOD + "PPFootprintFilter:Footprint.__init__", fp)

    def write(I, v):
        g.written.append(v["observations_in"] if "observations_in" in v else list(v.values())[2])

    use(MOD + "PPOutput:PPWriteOutput", write)

    def st(I, v):
        o = next(iter(v.values()))
        g.stats_of.append(o)
        return Obj("stats")

    use(MOD + "PPStats:stats", st)
    use(MOD + "PPOutput:PPIndexSQLDatabase", lambda I, v: None)

    def order(stages):
        """the stages of a written chunk, judged on what was applied when it matters"""
        s = list(stages)
        want = []
        if not external:
            want += ([] if brute is True else ["culling"]) + ["ephemeris"]
        want += ["match", "apparent"] + ([] if des else ["uncertainties"])
        if flags["randomization_on"] is True:
            want += ["randomise"]
        filters = (["fov"] if camera != "none" else []) + [nm for nm, f in (("snr", "snr_limit_on"), ("mag", "mag_limit_on"), ("fading", "fading_function_on"), ("bright", "bright_limit_on"))
                                                          if flags[f] is True]
        k = len(want)
        tail = ["discovery"] if des and flags["des_discovery_on"] is True else ["linking"] if not des and flags["ssp_linking_on"] is True else []
        cuts = [nm for nm, f in (("distance", "distance_cut_on"), ("motion", "motion_cut_on")) if des and flags[f] is True]
        m = len(s) - len(tail)
        # the whole-object cuts judge the detections that survived the others
        return s[:k] == want and sorted(s[k:m - len(cuts)]) == sorted(filters) and s[m - len(cuts):m] == cuts and s[m:] == tail

    want_of = {"match": True, "apparent": True, "uncertainties": not des, "culling": not external and brute is not True, "ephemeris": not external, "fov": camera != "none",
               "randomise": flags["randomization_on"], "snr": flags["snr_limit_on"], "mag": flags["mag_limit_on"], "fading": flags["fading_function_on"], "bright": flags["bright_limit_on"],
               "linking": not des and flags["ssp_linking_on"], "distance": des and flags["distance_cut_on"], "motion": des and flags["motion_cut_on"], "discovery": des and flags["des_discovery_on"]}

    def of_interest(out):
        return [x for x in out if about is None or any(x[0].startswith(a) for a in about)]

    phase = [0]

    def inv(env, k, I):
        ph = phase[0]
        phase[0] += 1
        start, end = env.vars.get("startChunk"), env.vars.get("endChunk")
        if ph == 0:
            for nm in ("result_observations", "result_stats"):
                if isinstance(env.vars.get(nm), list):
                    ob(f"{nm} starts empty", env.vars[nm] == [])
                    env.vars[nm] = Acc(g, nm)
        if ph == 1:
            g.P = c.fresh("reader_position", "int")
            g.reads, g.written, g.stats_of, g.acc, g.cur = [], [], [], [], None
        out = [("reader position is that of the finished blocks", z3.And(g.P >= 0, g.P <= g.n))]
        if start is not None and end is not None:
            s, e = to_int(start), to_int(end)
            out += [("progress", z3.And(g.P == z3.If(s < g.n, s, g.n), s >= 0)), ("all blocks up to the end", e == s)]
        if ph == 2:
            out.append(("one block per round", len(g.reads) == 1))
            if len(g.reads) == 1:
                b, cur = g.reads[0], g.cur
                res = ([x for nm, x in g.acc if nm == "result_observations"] if ret else g.written)
                if len(res) == 0:
                    out.append(("nothing written only when nothing survived", cur.m == 0))
                else:
                    o = res[0]
                    out.append(("each chunk's result is written once", len(res) == 1 and same(o, cur)))
                    out.append(("the result is that of the block read", isinstance(o, Obs) and o.lo is b.lo))
                    out.append(("every configured stage is applied, and no other", isinstance(o, Obs) and order(o.stages)))
                    for nm, yes in (want_of.items() if about is not None else ()):
                        out.append((nm + ": applied exactly when configured", isinstance(o, Obs) and (nm in o.stages) == bool(yes)))
                    p, d = base_parts(o)
                    out.append(("trailing loss: true PSF magnitude with the configured loss", p))
                    out.append(("vignetting: limiting depth with the configured loss", d))
                    if flags["randomization_on"] is False and isinstance(o, Obs):
                        got = {k2: v2.parts for k2, v2 in o.cols.items()}
                        out.append(("randomise: without it the measured values are the true ones",
                                    got.get("RATrue_deg") == ("RA_deg",) and got.get("DecTrue_deg") == ("Dec_deg",) and got.get("trailedSourceMag") == ("trailedSourceMagTrue",)
                                    and got.get("PSFMag") == got.get("PSFMagTrue")))
                if ret:
                    out.append(("nothing is written when results are returned", g.written == []))
                out.append(("statistics of exactly the written rows", len(g.stats_of) == (len(res) if with_stats else 0) and all(same(x, y) for x, y in zip(g.stats_of, res))))
                if ret:
                    out.append(("statistics returned once", len([1 for nm, x in g.acc if nm == "result_stats"]) == len(g.stats_of)))
        return of_interest(out)

    if about is None:
        inv.variant = lambda env, I: g.n - to_int(env.vars["endChunk"])
    V.invariant(run, 0, inv)

    def concat(I, a, k):
        if isinstance(a[0], Acc):
            # pandas: nothing to concatenate is an error
            if a[0].nm not in g.some and not a[0].sym_truth(I):
                raise PyExc("ValueError", ("No objects to concatenate",))
            return Whole(a[0].nm)
        raise Unsupported("concat")

    V.stub("pandas.concat", concat)
    V.stub("pandas.DataFrame", lambda I, a, k: Whole("nothing") if not a and not k else unknown())
    V.stub("os.path.isfile", lambda I, a, k: SV("bool", c.fresh("isfile", "bool")))
    V.stub("os.path.join", lambda I, a, k: "path")
    out = V.call(args, sc, return_only=ret)
    if (V.returns(out) if about is None else out.exc is None):
        ob("every object was read, exactly once and in order", g.P == g.n)
        if ret:
            def all_of(x, nm):
                return isinstance(x, Whole) and (x.nm == nm or (nm in g.empty and x.nm == "nothing"))

            v = out.value
            ob("returns the results of all chunks",
                     (isinstance(v, tuple) and len(v) == 2 and all_of(v[0], "result_observations") and all_of(v[1], "result_stats")) if with_stats else all_of(v, "result_observations"))


def flagset(V, sym, rest):
    d = {f: rest for f in FLAGS_A + FLAGS_B + FLAGS_D}
    for f in sym:
        d[f] = V.pick(f, [True, False])
    return d


RUN = dict(target="pipeline", max_time=280.0)


