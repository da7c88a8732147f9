#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks_exec  # noqa: E402
import checks_info  # noqa: E402
import checks_query  # noqa: E402
import checks_redundancy  # noqa: E402
import checks_runtime  # noqa: E402
import checks_select  # noqa: E402
import checks_session  # noqa: E402
import checks_track  # noqa: E402
import checks_valid  # noqa: E402
from common import main  # noqa: E402

TABLE = {"P06": checks_info.p06, "P12": checks_info.p12, "P11": checks_info.p11, "P10": checks_info.p10,
         "P01": checks_exec.p01, "P02": checks_exec.p02,
         "P08": checks_track.p08, "P09": checks_track.p09, "P19": checks_track.p19,
         "P15": checks_valid.p15, "P16": checks_valid.p16, "P03": checks_select.p03, "P05": checks_runtime.p05, "P07": checks_redundancy.p07, "P17": checks_query.p17, "P04": checks_session.p04, "P13": checks_session.p13, "P14": checks_session.p14, "P18": checks_session.p18}

if __name__ == "__main__":
    rc = main(TABLE)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
