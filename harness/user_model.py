"""A model as a user would write it on the public base classes (spec: model USER)."""
import json
import os

import numpy as np
from pygmm import model

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "tables", "USER.json")) as f:
    ROWS = json.load(f)


def column(name):
    return np.array([r[name] for r in ROWS], dtype=float)


class UserModel(model.GroundMotionModel):
    """The base classes with parameters and tables unlike those of the published models."""

    NAME = "A model of a user"
    ABBREV = "USER"

    PERIODS = column("period")
    INDEX_PGA = 0
    INDEX_PGV = 1
    INDICES_PSA = np.arange(2, 8)
    INDEX_PGD = 8
    PGV_SCALE = 2.5
    PGD_SCALE = 2.5

    PARAMS = [
        model.NumericParameter("mag", True, 4, 8),
        model.NumericParameter("dist_rup", True, 0, 200),
        model.NumericParameter("depth_tor", False, 0, None, 3),
        model.NumericParameter("dip", False, 0, 90, 45),
        model.NumericParameter("dist_x", False, None, 0, -2),
        model.NumericParameter("depth_1_0", False, 0, 1),
        model.CategoricalParameter("region", False, ["japan", "italy", "china"], "italy"),
        model.CategoricalParameter("is_aftershock", False, [True, False], True),
        model.CategoricalParameter("mechanism", True, ["NS", "SS"], "SS"),
    ]

    def __init__(self, scenario):
        super().__init__(scenario)
        s = self._scenario
        depth = -1 if s.depth_1_0 is None else s.depth_1_0
        self._ln_resp = (
            column("c_0")
            + column("c_1") * (s.mag - 6)
            - 1.2 * np.log(s.dist_rup + 8)
            + 0.02 * s.depth_tor
            + 0.003 * s.dip
            + 0.01 * s.dist_x
            + 0.3 * depth
            + {"japan": 0.1, "italy": 0.2, "china": 0.4}[s.region]
            + (0.15 if s.is_aftershock else 0)
            + {"SS": 0, "NS": -0.25}[s.mechanism]
        )
        self._ln_std = column("s_0") + 0.01 * (s.mag - 6)
