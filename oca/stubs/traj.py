"""trajectory of phases that records its design parameters (read by the analyser in place of a Dymos trajectory, never executed)"""


class Traj:
    def __init__(self, names):
        self._phases = {}
        for n in names:
            self._phases[n] = None
        self.params = []

    def add_design_parameter(self, name, **kw):
        self.params.append((name, kw))
