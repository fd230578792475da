# groups: top level directories of /repo/src (and "." for the files directly in it) that a binary links against
DIMS = (1, 2, 3)


def per_dim(src, dims=DIMS, name="d", **kw):
    return [dict(name="%s%d" % (name, d), src=src, ndim=d, **kw) for d in dims]


TABLE = {
    "R01": {
        "rule": "a pair of physically valid left/right states (contacts, shears, weak and strong jumps, sub- and supersonic) given to one of the three solvers",
        "bins": per_dim("R01.cpp", groups=["thermodynamics"], quick=20000, thorough=400000)
        + [dict(name="rad%d" % d, src="R01.cpp", ndim=d, eos="RadGas", groups=["thermodynamics"], quick=10000, thorough=150000) for d in (1, 3)],
    },
}

TABLE["T01"] = {
    "rule": "a gas (random adiabatic index and molecular weight) and a state spanning 35 decades, gas or radiation dominated; validity cases count when an argument is invalid",
    "bins": [dict(name="perfect", src="T01.cpp", ndim=1, groups=["thermodynamics"], quick=20000, thorough=400000), dict(name="rad", src="T01.cpp", ndim=1, eos="RadGas", groups=["thermodynamics"], quick=20000, thorough=400000)],
}
TABLE["T02"] = {
    "rule": "a valid primitive state (Mach numbers up to 100), or a random field on a random mesh and ghost depth",
    "bins": per_dim("T02.cpp", groups=["thermodynamics", "mesh", "."], quick=3000, thorough=60000) + [dict(name="rad", src="T02.cpp", ndim=2, eos="RadGas", groups=["thermodynamics", "mesh", "."], quick=2000, thorough=30000)],
}
TABLE["L01"] = {
    "rule": "two slopes of the same sign with a limiter, or a non constant field on a random mesh",
    "bins": per_dim("L01.cpp", groups=["hydro", "mesh", "."], quick=4000, thorough=60000),
}


def dim_geom(src, combos=((1, "Cartesian"), (2, "Cartesian"), (3, "Cartesian"), (1, "Spherical"), (2, "Spherical"), (3, "Spherical")), **kw):
    return [dict(name="%s%d" % ("cart" if g == "Cartesian" else "sph", d), src=src, ndim=d, geom=g, **kw) for d, g in combos]


TABLE["M01"] = {
    "rule": "a decomposition on more than one process, a range with ghosts, an invalid box or a random regular mesh",
    "bins": dim_geom("M01.cpp", ((1, "Cartesian"), (2, "Spherical"), (3, "Cartesian")), groups=["mesh", "utils", "."], quick=400, thorough=8000),
}
TABLE["M02"] = {
    "rule": "a random mesh (uniform, geometric or irregular spacing)",
    "bins": dim_geom("M02.cpp", groups=["mesh", "."], quick=2000, thorough=40000),
}
TABLE["B01"] = {
    "rule": "a reflecting or zero-gradient face, or a whole domain with a kind per face",
    "bins": per_dim("B01.cpp", groups=["mesh", "utils", "gravity", "."], quick=1500, thorough=30000),
}
TABLE["B02"] = {
    "rule": "an exchange between at least two processes (random process grid, rank reordering and message order)",
    "bins": per_dim("B02.cpp", groups=["mesh", "utils", "gravity", "."], quick=500, thorough=10000),
}
TABLE["B03"] = {
    "rule": "a permutation of the faces as priority list on a domain of two or three dimensions, or a list that is not a permutation",
    "bins": per_dim("B03.cpp", groups=["mesh", "utils", "gravity", "."], quick=600, thorough=20000),
}
STEP = dict(groups=["hydro", "mesh", "thermodynamics", "utils", "gravity", "."])


def steps(src, quick, thorough, rad=True, opt="-O2"):
    q = {1: quick, 2: quick // 4, 3: quick // 12}
    t = {1: thorough, 2: thorough // 4, 3: thorough // 12}
    out = []
    for b in dim_geom(src, opt=opt, **STEP):
        out.append(dict(b, quick=q[b["ndim"]], thorough=t[b["ndim"]]))
    if rad:
        for g, d in (("Cartesian", 1), ("Spherical", 2)):
            out.append(dict(name="rad%d" % d, src=src, ndim=d, geom=g, eos="RadGas", opt=opt, quick=quick // (4 if d == 1 else 16), thorough=thorough // (4 if d == 1 else 16), **STEP))
    return out


TABLE["S05"] = {
    "rule": "a random problem (mesh, gas, field, boundaries, scalars, gravity) whose predicted states are all physical",
    "bins": steps("S05.cpp", 4000, 100000),
}
TABLE["S01"] = {
    "rule": "a random problem whose intermediate states are physical: closed, walled, quiet along the boundary, or open",
    "bins": steps("S01.cpp", 2000, 60000),
}
TABLE["S02"] = {
    "rule": "a uniform state (at rest or moving), a field of contacts at rest, or a random problem with a zero time step",
    "bins": steps("S02.cpp", 3000, 60000),
}
TABLE["S04"] = {
    "rule": "a random problem with at least one passive scalar, intermediate states physical",
    "bins": steps("S04.cpp", 1200, 40000),
}
TABLE["S06"] = {
    "rule": "at least one cell is below the threshold of the safeguard (or a cold uniform motion)",
    "bins": steps("S06.cpp", 3000, 60000),
}
TABLE["S07"] = {
    "rule": "a random field, mesh and number of ghost layers",
    "bins": steps("S07.cpp", 4000, 80000),
}
TABLE["S03"] = {
    "rule": "a random problem with physical intermediate states and a transformed copy of it",
    "bins": steps("S03.cpp", 2000, 50000),
}
TABLE["G01"] = {
    "rule": "a random density, mesh and central mass (uniform: a random vector)",
    "bins": dim_geom("G01.cpp", groups=["gravity", "mesh", "thermodynamics", "utils", "."], quick=1500, thorough=30000),
}
TABLE["A01"] = {
    "rule": "a random field on a random decomposition, ghosts filled with extreme values",
    "bins": dim_geom("A01.cpp", groups=["analysis", "mesh", "thermodynamics", "utils", "."], quick=1200, thorough=30000)
    + [dict(name="rad1", src="A01.cpp", ndim=1, eos="RadGas", groups=["analysis", "mesh", "thermodynamics", "utils", "."], quick=600, thorough=10000)],
}
TABLE["A02"] = {
    "rule": "a random value or profile broadcast onto random arrays",
    "bins": per_dim("A02.cpp", groups=["mesh", "utils", "."], quick=1500, thorough=30000),
}
TABLE["U01"] = {
    "rule": "heating with nickel present and a positive duration",
    "bins": per_dim("U01.cpp", groups=["user_step", "mesh", "utils", "."], quick=3000, thorough=50000),
}
TABLE["V01"] = {
    "rule": "one to four shifts of random fields on a random mesh and decomposition",
    "bins": dim_geom("V01.cpp", groups=["moving_grid", "mesh", "utils", "."], quick=800, thorough=20000),
}
TABLE["C04"] = {
    "rule": "a value of another type than the target",
    "bins": [dict(name="casts", src="C04.cpp", ndim=1, lib=False, quick=200000, thorough=4000000)],
}
TABLE["D01"] = {
    "rule": "a history of at least three operations with at least one write",
    "bins": [dict(name="dual_view", src="D01.cpp", ndim=1, lib=False, quick=60000, thorough=3000000)],
}

INI_VARIANTS = {
    "default": [],
    "single": ["INI_ALLOW_MULTILINE=0"],
    "noinline": ["INI_ALLOW_INLINE_COMMENTS=0"],
    "stop": ["INI_STOP_ON_FIRST_ERROR=1", "INI_HANDLER_LINENO=1"],
    "heap": ["INI_USE_STACK=0", "INI_MAX_LINE=64"],
    "short": ["INI_MAX_LINE=20", "INI_HANDLER_LINENO=1"],
    "nobom": ["INI_ALLOW_BOM=0", "INI_ALLOW_MULTILINE=0", "INI_STOP_ON_FIRST_ERROR=1"],
    "prefixes": ["INI_INLINE_COMMENT_PREFIXES='\"#;!\"'", "INI_USE_STACK=0"],
}
TABLE["C01"] = {
    "rule": "a text from which at least one value is reported",
    "bins": [dict(name=k, src="C01.cpp", ndim=1, lib=False, defs=v, csrc=["@REPO@/vendor/inih/src/ini.c"], san="-fsanitize=address,undefined -fno-sanitize-recover=all", quick=20000, thorough=600000) for k, v in INI_VARIANTS.items()],
}
# the same tests with choice sequences that are bred for the code they reach
COV = dict(san="-fsanitize=address,undefined -fno-sanitize-recover=all -fsanitize-coverage=trace-pc")
TABLE["C01"]["bins"] += [dict(b, name="cov_" + b["name"], defs=b["defs"] + ["PBT_COVERAGE"], quick=10000, thorough=1000000, **COV) for b in TABLE["C01"]["bins"] if b["name"] in ("default", "heap", "stop", "prefixes")]
TABLE["C02"] = {
    "rule": "a file with several entries, or a typed value among others",
    "bins": [dict(name="reader", src=["C02.cpp", "@REPO@/vendor/inih/src/INIReader.cpp"], ndim=1, lib=False, csrc=["@REPO@/vendor/inih/src/ini.c"], san="-fsanitize=address,undefined -fno-sanitize-recover=all", quick=6000, thorough=300000)],
}
TABLE["C02"]["bins"] += [dict(b, name="cov_" + b["name"], defs=["PBT_COVERAGE"], quick=3000, thorough=500000, **COV) for b in TABLE["C02"]["bins"]]
TABLE["D01"]["bins"] += [dict(b, name="cov_" + b["name"], defs=["PBT_COVERAGE"], san="-fsanitize-coverage=trace-pc", quick=20000, thorough=1000000) for b in TABLE["D01"]["bins"]]

# whole program
RUNS = (("cart1", 1, "Cartesian", "Uniform"), ("cart2", 2, "Cartesian", "Uniform"), ("cart3", 3, "Cartesian", "Uniform"), ("sph1", 1, "Spherical", "Point_mass"), ("sph2", 2, "Spherical", "Internal_mass"), ("sph3", 3, "Spherical", "Uniform"))


def runs(src, quick, thorough, which=("cart1", "cart2", "cart3", "sph1", "sph2", "sph3"), scale=(1, 3, 8), **kw):
    return [
        dict(name=n, src=src, ndim=d, geom=g, gravity=gr, setup="verif", defs=["VERIF_GRAVITY_" + gr], quick=max(1, quick // scale[d - 1]), thorough=max(1, thorough // scale[d - 1]), **kw)
        for n, d, g, gr in RUNS
        if n in which
    ]


TABLE["O04"] = {
    "rule": "a run of at least three iterations and three outputs",
    "bins": runs("O04.cpp", 300, 6000),
}
TABLE["S09"] = {
    "rule": "two runs of at least two iterations of the same problem in different systems of units",
    "bins": runs("S09.cpp", 400, 8000) + [dict(b, name=b["name"] + "rad", eos="RadGas") for b in runs("S09.cpp", 200, 4000, which=("cart1", "cart2", "sph2"))],
}
TABLE["O10"] = {
    "rule": "a run of at least two iterations and two outputs (report), or any run with a description or an unknown name",
    "bins": runs("O10.cpp", 300, 6000),
}
TABLE["O11"] = {
    "rule": "a run with at least twelve iterations more than another of the same problem, or a run that ends with an error",
    "bins": runs("O11.cpp", 200, 4000),
}
TABLE["O07"] = {
    "rule": "a run whose state becomes invalid, or a request that cannot be satisfied",
    "bins": runs("O07.cpp", 300, 6000),
}
TABLE["O05"] = {
    "rule": "two runs of the same input on different machines (process grid or rank numbering)",
    "bins": runs("O05.cpp", 400, 8000),
}
TABLE["O12"] = {
    "rule": "two runs of the same input with different numbers of ghost layers, with at least two outputs",
    "bins": runs("O12.cpp", 600, 12000),
}
TABLE["O06"] = {
    "rule": "two runs of the same input with different iteration orders",
    "bins": runs("O06.cpp", 400, 8000),
}
TABLE["O03"] = {
    "rule": "a run of at least two outputs, restarted one to three times from one of them",
    "bins": runs("O03.cpp", 400, 8000),
}
TABLE["O01"] = {
    "rule": "a state written by or read on several processes or with passive scalars, or a run with at least two outputs",
    "bins": runs("O01.cpp", 300, 10000),
}
TABLE["O02"] = {
    "rule": "a growing list of outputs, or a run with at least two outputs, continued or not",
    "bins": runs("O02.cpp", 300, 8000),
}
TABLE["O08"] = {
    "rule": "a restart from a file that does not fit the run",
    "bins": runs("O08.cpp", 300, 8000),
}
TABLE["O09"] = {
    "rule": "a run with at least one iteration whose intermediate states are physical, compared transition by transition",
    "bins": runs("O09.cpp", 800, 20000),
}
TABLE["C03"] = {
    "rule": "some parameters given and some omitted, a value or name that is not supported, or a problem that tells the named schemes apart",
    "bins": [dict(name="params", src="C03_params.cpp", ndim=1, groups=["mesh", "utils", "gravity", "."], quick=15000, thorough=600000)]
    + [dict(b, name="names_" + b["name"], quick=q, thorough=40 * q) for b, q in zip(dim_geom("C03_names.cpp", ((1, "Cartesian"), (2, "Spherical"), (3, "Cartesian")), groups=["hydro", "mesh", "thermodynamics", "utils", "gravity", "user_step", "."]), (2000, 800, 300))]
    + runs("C03_runs.cpp", 300, 8000, which=("cart1", "cart2", "cart3", "sph1", "sph2")),
}

# (problem, dimensions, geometry, gravity, equation of state)
SETUPS = (
    ("advection_gap", 1, "Cartesian", "Uniform", "PerfectGas"),
    ("advection_gap", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("advection_sinus", 1, "Cartesian", "Uniform", "PerfectGas"),
    ("advection_sinus", 3, "Cartesian", "Uniform", "PerfectGas"),
    ("eq_hydro_sphe", 1, "Spherical", "Point_mass", "PerfectGas"),
    ("eq_hydro_sphe", 3, "Spherical", "Point_mass", "PerfectGas"),
    ("gresho_vortex", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("heat_nickel", 1, "Cartesian", "Uniform", "PerfectGas"),
    ("heat_nickel", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("implosion_test", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("kelvin_helmholtz", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("rayleigh_taylor", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("rayleigh_taylor3d", 3, "Cartesian", "Uniform", "PerfectGas"),
    ("sedov1d", 1, "Cartesian", "Uniform", "PerfectGas"),
    ("sedov1d", 1, "Spherical", "Uniform", "PerfectGas"),
    ("sedov2d", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("sedov3d", 3, "Spherical", "Uniform", "PerfectGas"),
    ("shock_tube", 1, "Cartesian", "Uniform", "PerfectGas"),
    ("shock_tube", 1, "Spherical", "Uniform", "PerfectGas"),
    ("shock_tube", 3, "Spherical", "Uniform", "PerfectGas"),
    ("shock_wall", 1, "Cartesian", "Uniform", "PerfectGas"),
    ("shock_wall", 1, "Cartesian", "Uniform", "RadGas"),
    ("stratified_atm", 1, "Cartesian", "Uniform", "PerfectGas"),
    ("stratified_atm", 2, "Cartesian", "Uniform", "PerfectGas"),
    ("v1d", 1, "Spherical", "Point_mass", "RadGas"),
    ("v1d", 3, "Spherical", "Point_mass", "PerfectGas"),
)
TABLE["I01"] = {
    "rule": "a run on several processes or with more than two ghost layers, a user-defined boundary or criterion, or a misfit profile",
    "bins": [
        dict(name="%s_%d%s%s" % (s, d, g[:1], "r" if e != "PerfectGas" else ""), src="I01.cpp", ndim=d, geom=g, gravity=gr, eos=e, setup=s, defs=["SETUP_" + s, "VERIF_GRAVITY_" + gr], opt="-O0", quick=(200, 120, 60)[d - 1], thorough=(6000, 4000, 2000)[d - 1], shards={"thorough": 1})
        for s, d, g, gr, e in SETUPS
    ],
}
# (input file, problem, dimensions, geometry, gravity, equation of state, cost)
INPUTS = (
    ("advection_gap", "advection_gap", 1, "Cartesian", "Uniform", "PerfectGas", 1),
    ("advection_sinus", "advection_sinus", 1, "Cartesian", "Uniform", "PerfectGas", 1),
    ("eq_hydro_sphe", "eq_hydro_sphe", 1, "Spherical", "Point_mass", "PerfectGas", 1),
    ("gresho_vortex", "gresho_vortex", 2, "Cartesian", "Uniform", "PerfectGas", 2),
    ("heat_nickel", "heat_nickel", 1, "Cartesian", "Uniform", "PerfectGas", 1),
    ("implosion_test", "implosion_test", 2, "Cartesian", "Uniform", "PerfectGas", 2),
    ("kelvin_helmholtz", "kelvin_helmholtz", 2, "Cartesian", "Uniform", "PerfectGas", 2),
    ("rayleigh_taylor", "rayleigh_taylor", 2, "Cartesian", "Uniform", "PerfectGas", 2),
    ("rayleigh_taylor3d", "rayleigh_taylor3d", 3, "Cartesian", "Uniform", "PerfectGas", 4),
    ("sedov1d", "sedov1d", 1, "Cartesian", "Uniform", "PerfectGas", 1),
    ("sedov2d", "sedov2d", 2, "Cartesian", "Uniform", "PerfectGas", 2),
    ("sedov3d_sph", "sedov3d", 3, "Spherical", "Uniform", "PerfectGas", 8),
    ("shock_tube", "shock_tube", 1, "Cartesian", "Uniform", "PerfectGas", 1),
    ("shock_tube1d_sph", "shock_tube", 1, "Spherical", "Uniform", "PerfectGas", 1),
    ("shock_tube3d_sph", "shock_tube", 3, "Spherical", "Uniform", "PerfectGas", 8),
    ("shock_wall_pg", "shock_wall", 1, "Cartesian", "Uniform", "PerfectGas", 1),
    ("shock_wall_rad", "shock_wall", 1, "Cartesian", "Uniform", "RadGas", 1),
    ("stratified_atm", "stratified_atm", 1, "Cartesian", "Uniform", "PerfectGas", 1),
    ("v1d_1d", "v1d", 1, "Spherical", "Point_mass", "RadGas", 4),
    ("v1d_3d", "v1d", 3, "Spherical", "Point_mass", "RadGas", 40),
)
TABLE["I02"] = {
    "rule": "a run of at least two iterations or on several processes",
    "bins": [
        dict(name=n, src="I02.cpp", ndim=d, geom=g, gravity=gr, eos=e, setup=s, defs=["INPUT_FILE='\"%s\"'" % n, "INPUT_DIR='\"@REPO@/inputs\"'", "REPO_DIR='\"@REPO@\"'", "VERIF_GRAVITY_" + gr], opt="-O0", quick=max(4, 120 // cost), thorough=max(40, 3000 // cost), shards={"thorough": 1})
        for n, s, d, g, gr, e, cost in INPUTS
    ],
}
TABLE["S08"] = {
    "rule": "two runs, at resolutions N and 2N, of a random problem with a known solution",
    "bins": [
        dict(name=n, src="S08.cpp", ndim=d, geom=g, gravity=gr, eos=e, setup="exact", defs=["S08_" + g.upper(), "S08_NDIM=%d" % d, "VERIF_GRAVITY_" + gr] + (["S08_RADIATION"] if e == "RadGas" else []), quick=q, thorough=40 * q, shards={"thorough": 8})
        for n, d, g, gr, e, q in (
            ("cart1", 1, "Cartesian", "Uniform", "PerfectGas", 100),
            ("cart2", 2, "Cartesian", "Uniform", "PerfectGas", 30),
            ("cart3", 3, "Cartesian", "Uniform", "PerfectGas", 10),
            ("rad1", 1, "Cartesian", "Uniform", "RadGas", 60),
            ("sph1", 1, "Spherical", "Point_mass", "PerfectGas", 60),
            ("sph2", 2, "Spherical", "Uniform", "PerfectGas", 20),
            ("sph3", 3, "Spherical", "Uniform", "PerfectGas", 6),
        )
    ],
}
