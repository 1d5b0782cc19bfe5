"""minimal integrating groups, phases and trajectories built on openconcept.mission (read by the analyser, never executed)"""
import openmdao.api as om
from openconcept.mission import IntegratorGroup, PhaseGroup, TrajectoryGroup

BURN = ["integrate", "state_name:fuel_burnt", "state_units:kg", "state_val:3.0", "state_lower:-5.0", "state_upper:20000.0", "state_promotes:True"]
HEAT = ["integrate", "state_name:heat", "state_units:J"]
TEMP = ["state_promotes:True", "state_val:290", "state_units:K", "state_name:temp", "integrate"]


class Rates(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("extra", default=False)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_input("x", shape=(nn,))
        self.add_output("burn", shape=(nn,), units="kg/s", tags=BURN)
        self.add_output("heating", shape=(nn,), units="W", tags=HEAT)
        self.add_output("warming", shape=(nn,), units="K/min", tags=TEMP)
        self.add_output("mass_a", shape=(nn,), units="kg")
        self.add_output("mass_b", shape=(nn,), units="lb")
        if self.options["extra"]:
            self.add_output("range_rate", shape=(nn,), units="m/s", tags=["integrate", "state_name:dist", "state_units:m", "state_promotes:True"])
        self.declare_partials("*", "*")


class NoName(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        self.add_input("x", shape=(self.options["num_nodes"],))
        self.add_output("burn", shape=(self.options["num_nodes"],), units="kg/s", tags=["integrate", "state_units:kg"])
        self.declare_partials("*", "*")


class Boundary(om.ExplicitComponent):
    """quantities that are promoted"""
    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_input("x", shape=(nn,))
        self.add_output("mass_c", shape=(nn,), units="kg")
        self.add_output("mass_d", shape=(nn,), units="kg")
        self.declare_partials("*", "*")


class States(IntegratorGroup):
    def initialize(self):
        super().initialize()
        self.options.declare("extra", default=False)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("rates", Rates(num_nodes=nn, extra=self.options["extra"]), promotes_inputs=["x"], promotes_outputs=["burn"])


class TaggedProduct(IntegratorGroup):
    """an integrated rate formed by promote_mult"""
    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("rates", Rates(num_nodes=nn), promotes_inputs=["x"])
        self.promote_mult("rates.burn", "minus_burn", -2.5, vec_size=nn, units="kg/s", tags=["integrate", "state_name:mass", "state_units:kg", "state_promotes:True"])


class Unnamed(IntegratorGroup):
    def setup(self):
        self.add_subsystem("rates", NoName(num_nodes=self.options["num_nodes"]))


class Combined(IntegratorGroup):
    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("rates", Rates(num_nodes=nn), promotes_inputs=["x"])
        self.add_subsystem("bnd", Boundary(num_nodes=nn), promotes_outputs=["*"])
        self.promote_add(["rates.mass_a", "rates.mass_b"], "total", promoted_sources=["mass_c", "mass_d"], factors=[2.0, -3.0, 0.5, -0.25],
                         vec_size=nn, units="kg", val=7.0, lower=-4.0, upper=900.0)
        self.promote_add(["rates.mass_a"], "plain", promoted_sources=["mass_d"], vec_size=nn, units="lb")
        self.promote_add([], "only_promoted", promoted_sources=["mass_c", "mass_d"], factors=[1.0, -1.0], vec_size=nn, units="kg")
        self.promote_add(["rates.mass_b", "rates.mass_a"], "only_inner", vec_size=nn, units="g")
        self.promote_mult("rates.mass_a", "scaled", 4.5, vec_size=nn, units="kg", val=6.0, lower=-3.0, upper=800.0)
        self.add_subsystem("copy", Copy(num_nodes=nn))
        self.promote_mult("copy.y", "other_scaled", -0.5, vec_size=nn, units="lb")


class Copy(om.ExplicitComponent):
    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_input("z", shape=(nn,), units="kg")
        self.add_output("y", shape=(nn,), units="kg")
        self.declare_partials("*", "*")


class Nested(om.Group):
    """an integrating group below a plain group that promotes only part of it"""
    def initialize(self):
        self.options.declare("num_nodes", default=1)
        self.options.declare("extra", default=False)

    def setup(self):
        nn = self.options["num_nodes"]
        self.add_subsystem("inner", States(num_nodes=nn, extra=self.options["extra"], time_units="min"), promotes_outputs=["fuel_burnt", "fuel_burnt_final"])


class Phase(PhaseGroup):
    def initialize(self):
        super().initialize()
        self.options.declare("extra", default=False)

    def setup(self):
        nn = self.options["num_nodes"]
        ivc = self.add_subsystem("clock", om.IndepVarComp(), promotes_outputs=["*"])
        ivc.add_output("duration", val=10.0, units="s")
        self.add_subsystem("one", States(num_nodes=nn), promotes_inputs=["*"], promotes_outputs=["fuel_burnt", "fuel_burnt_final"])
        self.add_subsystem("two", States(num_nodes=nn, extra=self.options["extra"], time_units="h"))
        self.add_subsystem("deep", Nested(num_nodes=nn, extra=self.options["extra"]))


class Trajectory(TrajectoryGroup):
    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        nn = self.options["num_nodes"]
        a = self.add_subsystem("a", Phase(num_nodes=nn))
        b = self.add_subsystem("b", Phase(num_nodes=nn, extra=True))
        c = self.add_subsystem("c", Phase(num_nodes=nn, extra=True))
        d = self.add_subsystem("d", Phase(num_nodes=nn))
        self.link_phases(a, b)
        self.link_phases(b, c, states_to_skip=["two.ode_integ.heat", "fuel_burnt"])
        self.link_phases(c, d, states_to_skip=["deep.inner.temp"])


class Campaign(om.Group):
    """a trajectory that is not the top of the model"""
    def initialize(self):
        self.options.declare("num_nodes", default=1)

    def setup(self):
        self.add_subsystem("traj", Trajectory(num_nodes=self.options["num_nodes"]))
