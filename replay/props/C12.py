"""C12 chunked processing, concrete contracts."""
import pipeline
from common import *
from props.C13 import gen_rows, run_rows, gen_combined, run_combined
from props.C22 import gen as gen_out, run as run_out

TARGETS = {
    "pipeline": pipeline.target(weight=2, link=None),
    "pipeline_link": pipeline.target(weight=1),
    "pipeline_ar": pipeline.target(weight=1, ar=True, eph="csv"),
    "pipeline_des": pipeline.target(weight=1, survey="DES"),
    "rows": Target(gen_rows, run_rows, None, 0.5),
    "combined": Target(gen_combined, run_combined, None, 0.8),
    "writers": Target(gen_out, run_out, None, 0.5),
}
