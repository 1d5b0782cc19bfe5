"""minimal aircraft model that honours the interface the mission phases ask for (read by the analyser, never executed)"""
import numpy as np
import openmdao.api as om
from openconcept.mission.mission_groups import IntegratorGroup


class StubPropulsionAndDrag(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        nn = self.options["num_nodes"]
        ar = np.arange(nn)
        self.add_input("throttle", shape=(nn,))
        self.add_input("propulsor_active", shape=(nn,))
        self.add_input("fltcond|CL", shape=(nn,))
        self.add_input("fltcond|q", shape=(nn,), units="Pa")
        self.add_input("fltcond|rho", shape=(nn,), units="kg/m**3")
        self.add_input("fltcond|Utrue", shape=(nn,), units="m/s")
        self.add_input("fltcond|h", shape=(nn,), units="m")
        self.add_input("ac|geom|wing|S_ref", units="m**2")
        self.add_input("ac|aero|polar|CD0_cruise")
        self.add_output("thrust", shape=(nn,), units="N")
        self.add_output("drag", shape=(nn,), units="N")
        self.add_output("fuel_flow", shape=(nn,), units="kg/s",
                        tags=["integrate", "state_name:fuel_used", "state_units:kg", "state_val:0.0", "state_promotes:True"])
        self.declare_partials(["thrust", "fuel_flow"], ["throttle", "propulsor_active", "fltcond|rho", "fltcond|Utrue", "fltcond|h"], rows=ar, cols=ar)
        self.declare_partials("drag", ["fltcond|CL", "fltcond|q"], rows=ar, cols=ar)
        self.declare_partials("drag", ["ac|geom|wing|S_ref", "ac|aero|polar|CD0_cruise"])


class StubWeight(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        nn = self.options["num_nodes"]
        ar = np.arange(nn)
        self.add_input("ac|weights|MTOW", units="kg")
        self.add_input("fuel_used", shape=(nn,), units="kg")
        self.add_output("weight", shape=(nn,), units="kg")
        self.declare_partials("weight", "fuel_used", rows=ar, cols=ar)
        self.declare_partials("weight", "ac|weights|MTOW")


class StubAircraft(IntegratorGroup):
    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("flight_phase", default=None)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("prop", StubPropulsionAndDrag(num_nodes=nn), promotes_inputs=["*"], promotes_outputs=["*"])
        self.add_subsystem("wt", StubWeight(num_nodes=nn), promotes_inputs=["*"], promotes_outputs=["*"])
