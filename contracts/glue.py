"""What the run itself owes to a property: its stage is applied to the table of
the chunk exactly when configured, with the configured settings and the run's
own random streams.  The whole run is under contract in C12; here only the
obligations that belong to the property are claimed."""
from pyvc.contract import contract
from contracts.run import M, DES, FLAGS_A, FLAGS_B, FLAGS_D, pipeline, flagset

LSST, DESRUN = M + ":runLSSTSimulation", DES + ":runDESSimulation"
#    property: (obligations, flags of interest, survey, options)
OWN = {
    "C01": [(["snr:", "mag:", "bright:"], ["snr_limit_on", "mag_limit_on", "bright_limit_on"], "LSST", {}), (["mag:", "bright:"], ["mag_limit_on", "bright_limit_on"], "DES", {})],
    "C02": [(["fading:", "linking:"], ["fading_function_on", "ssp_linking_on"], "LSST", {}), (["fading:"], ["fading_function_on"], "DES", {})],
    "C03": [(["fading:"], ["fading_function_on"], "LSST", {}), (["fading:"], ["fading_function_on"], "DES", {})],
    "C04": [(["trailing loss:"], ["trailing_losses_on"], "LSST", {})],
    "C05": [(["vignetting:"], ["vignetting_on"], "LSST", {})],
    "C06": [(["uncertainties:"], ["trailing_losses_on", "vignetting_on"], "LSST", {})],
    "C07": [(["apparent:"], [], "LSST", {}), (["apparent:"], [], "DES", {})],
    "C08": [(["randomise:", "trailing loss:"], ["randomization_on", "trailing_losses_on"], "LSST", {})],
    "C09": [(["linking:"], ["ssp_linking_on"], "LSST", {})],
    "C10": [(["linking:"], ["ssp_linking_on"], "LSST", {})],
    "C11": [(["linking:"], ["ssp_linking_on"], "LSST", {})],
    "C13": [(["inputs:"], [], "LSST", {"complex": True, "external": True}), (["inputs:"], [], "DES", {"complex": True, "external": True})],
    "C14": [(["inputs: the orbit file"], [], "LSST", {"external": True}), (["inputs: the orbit file"], [], "DES", {"external": True})],
    "C16": [(["arguments:"], [], "LSST", {}), (["arguments:"], [], "DES", {})],
    "C18": [(["fov:", "the configured footprint file"], [], "LSST", {"camera": True})],
    "C19": [(["fov:"], [], "LSST", {"camera": "footprint", "visits": True}), (["fov:"], [], "DES", {"camera": "footprint", "visits": True})],
    "C20": [(["distance:", "motion:", "discovery:"], FLAGS_D, "DES", {})],
    "C21": [(["match:", "pointings:"], [], "LSST", {}), (["match:", "pointings:"], ["fading_function_on"], "DES", {})],
    "C22": [(["each chunk's result", "the result is", "returns the results", "statistics", "nothing is written", "nothing written"], ["snr_limit_on"], "LSST", {"ret": True, "stats": True}),
            (["each chunk's result", "the result is", "returns the results", "statistics", "nothing is written", "nothing written"], ["motion_cut_on"], "DES", {"ret": True, "stats": True})],
    "C23": [(["culling:"], [], "LSST", {"external": False, "brute": True, "complex": True}), (["culling:"], [], "DES", {"external": False, "brute": True, "complex": True})],
    "C24": [(["ephemeris:"], [], "LSST", {"external": False, "brute": True}), (["ephemeris:"], [], "DES", {"external": False, "brute": True})],
    "C28": [(["apparent:"], [], "LSST", {"complex": True}), (["apparent:"], [], "DES", {"complex": True})],
}


def one(prop, about, sym, survey, opt):
    @contract(prop, LSST if survey == "LSST" else DESRUN, name=f"run {survey}: {', '.join(a.rstrip(':') for a in about[:3])} as configured", target="pipeline", max_time=200.0)
    def run(V):
        P = lambda key, default: V.pick(key, [True, False]) if opt.get(key) is True else opt.get(key, default)
        cam = opt.get("camera", "none")
        pipeline(V, opt.get("external", True), flagset(V, sym, False), V.pick("camera", ["none", "circle", "footprint"]) if cam is True else cam, P("brute", False), P("ret", False), P("stats", False),
                 complex_=P("complex", False), des=survey == "DES", about=about, lc=V.pick("lc", [True, False]) if opt.get("complex") else False, visits=P("visits", False))


def glue(prop):
    for x in OWN[prop]:
        one(prop, *x)
