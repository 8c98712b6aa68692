"""C12 Chunked processing covers every object exactly once.

runLSSTSimulation is verified against the contracts of everything it calls:
the reader hands out consecutive blocks of objects (contract of read_block /
read_aux_block, proved below), every stage maps the table of a chunk to a
table of the same chunk, filters never add rows.  Ghost state: the reader's
position, the table of the current chunk with the stages it went through, and
what was written for it."""
from pyvc.contract import contract, also
from contracts.run import *


@contract("C12", M + ":runLSSTSimulation", name="runLSSTSimulation: external ephemerides, calculation stages", **RUN)
def run_ext_a(V):
    pipeline(V, True, flagset(V, FLAGS_A, False), V.pick("camera", ["none", "circle", "footprint"]), False, False, V.pick("stats", [True, False]))


@contract("C12", M + ":runLSSTSimulation", name="runLSSTSimulation: external ephemerides, filters", **RUN)
def run_ext_b(V):
    pipeline(V, True, flagset(V, FLAGS_B, True), "circle", False, False, True)


@contract("C12", M + ":runLSSTSimulation", name="runLSSTSimulation: generated ephemerides", **RUN)
def run_ar(V):
    pipeline(V, False, flagset(V, ["randomization_on", "ssp_linking_on"], False), V.pick("camera", ["none", "circle"]), V.pick("brute", [True, False]), False, False)


@contract("C12", M + ":runLSSTSimulation", name="runLSSTSimulation: results returned", **RUN)
def run_ret(V):
    pipeline(V, V.pick("external", [True, False]), flagset(V, ["snr_limit_on"], False), "none", False, True, V.pick("stats", [True, False]), complex_=V.pick("complex", [True, False]))


@contract("C12", DES + ":runDESSimulation", name="runDESSimulation: external ephemerides, calculation stages", **RUN)
def des_ext_a(V):
    pipeline(V, True, flagset(V, FLAGS_A, False), V.pick("camera", ["none", "circle", "footprint"]), False, False, V.pick("stats", [True, False]), des=True)


@contract("C12", DES + ":runDESSimulation", name="runDESSimulation: external ephemerides, filters", **RUN)
def des_ext_b(V):
    pipeline(V, True, flagset(V, ["mag_limit_on", "fading_function_on", "bright_limit_on"] + FLAGS_D, False), "circle", False, False, True, des=True)


@contract("C12", DES + ":runDESSimulation", name="runDESSimulation: generated ephemerides", **RUN)
def des_ar(V):
    pipeline(V, False, flagset(V, ["fading_function_on", "des_discovery_on"], False), V.pick("camera", ["none", "circle"]), V.pick("brute", [True, False]), False, False, des=True)


@contract("C12", DES + ":runDESSimulation", name="runDESSimulation: results returned", **RUN)
def des_ret(V):
    pipeline(V, V.pick("external", [True, False]), flagset(V, ["motion_cut_on"], False), "none", False, True, V.pick("stats", [True, False]), complex_=V.pick("complex", [True, False]), des=True)


also("C12", "C13", ["CombinedDataReader.read_block", "CombinedDataReader.read_aux_block", "CombinedDataReader.check_aux_object_ids", "CSVDataReader._read_rows_internal", "ObjectDataReader.read_rows"])
also("C12", "C22", ["PPOutWriteCSV", "PPOutWriteSqlite3", "PPOutWriteHDF5"])
