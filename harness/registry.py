"""Which driver, specification modules and trace specification decide a property."""


def m(module, cfg=None, deep=None, expect="holds", thorough_only=False):
    return {"module": module, "cfg": cfg or module, "deep": deep, "expect": expect,
            "thorough_only": thorough_only}


STORE = [m("MC_StateStore", deep="MC_StateStore_deep")]
STORE_S = m("MC_StateStore", "MC_StateStore_scripts", deep="MC_StateStore_scripts_deep")

HIST = [m("MC_History", deep="MC_History_deep"),
        m("MC_History", "MC_History_alias", expect="violated")]
HIST_S = m("MC_History", "MC_History_scripts", deep="MC_History_scripts_deep")

SYNC = [m("MC_SyncRunner", deep="MC_SyncRunner_deep"),
        m("MC_SyncRunner", "MC_SyncRunner_live", expect="violated")]
POOL = [m("MC_ParallelPool", deep="MC_ParallelPool_deep"),
        m("MC_ParallelPool", "MC_ParallelPool_delta", expect="violated")]
ASYNC = [m("MC_AsyncRunner", deep="MC_AsyncRunner_deep"),
         m("MC_AsyncRunner", "MC_AsyncRunner_finish"),
         m("MC_AsyncRunner", "MC_AsyncRunner_lifo", expect="violated"),
         m("MC_AsyncRunner", "MC_AsyncRunner_unique", expect="violated")]
FORMS = [m("MC_Forms", deep="MC_Forms_deep")]

GEOM = [m("MC_Geometry", deep="MC_Geometry_deep")]
STRUCT = [m("MC_Structure", deep="MC_Structure_deep"), m("MC_Structure", "MC_Structure_sq"),
          m("MC_Structure", "MC_Structure_any", expect="violated")]
STRUCT_S = m("MC_Structure", "MC_Structure_scripts", deep="MC_Structure_scripts_deep")

NEIGH = [m("MC_Neighbors", deep="MC_Neighbors_deep"),
         m("MC_Neighbors", "MC_Neighbors_3d", thorough_only=True)]

LIFE = [m("MC_Life", deep="MC_Life_deep"), m("MC_LifeKnown"),
        m("MC_Life", "MC_Life_sweep", expect="violated")]
LIFE_S = m("MC_Life", "MC_Life_scripts", deep="MC_Life_scripts_deep")
GROWTH = [m("MC_Growth", deep="MC_Growth_deep"),
          m("MC_Growth", "MC_Growth_neumann", deep="MC_Growth_neumann_deep"),
          m("MC_Growth", "MC_Growth_hex", deep="MC_Growth_hex_deep")]

NUC = [m("MC_Nucleation", deep="MC_Nucleation_deep"), m("MC_Nucleation", "MC_Nucleation_share"),
       m("MC_Nucleation", "MC_Nucleation_robin", expect="violated")]

PART = [m("MC_Particles", deep="MC_Particles_deep"),
        m("MC_Particles", "MC_Particles_3d", thorough_only=True)]

ANA = [m("MC_Analysis", deep="MC_Analysis_deep")]

DRAW = [m("MC_Drawing", deep="MC_Drawing_deep")]

CONV = [m("MC_Convert", deep="MC_Convert_deep")]

PROPS = {
    "S01": {
        "driver": "d_state:s01", "trace": "T_State", "models": STORE, "scripts": STORE_S,
        "what": "StateStore is model-checked; every script of 3 operations TLC derives from it "
                "and random histories of up to 40 operations in all forms are run on "
                "SimulationState, and TLC validates the content of every object after every one.",
    },
    "S02": {
        "driver": "d_state:s02", "trace": "T_State", "models": STORE, "scripts": STORE_S,
        "what": "As S01, with histories in which copies, copies of copies, source dictionaries "
                "and in-place changes to nested values are interleaved.",
    },
    "H01": {
        "driver": "d_history:h01", "trace": "T_History", "models": HIST, "scripts": HIST_S,
        "what": "History (recording, preloading, retrieval) is model-checked; scripts derived "
                "from it and random histories are run on SimulationResult, and every step "
                "handed out is validated against the fold of the recorded updates.",
    },
    "H02": {
        "driver": "d_history:h02", "trace": "T_History", "models": HIST, "scripts": HIST_S,
        "what": "As H01, with retrieved steps that their holders change; the model in which "
                "preloaded steps are handed out themselves has a counterexample (control).",
    },
    "H03": {
        "driver": "d_history:h03", "trace": "T_History", "models": HIST, "scripts": HIST_S,
        "what": "Histories in all update forms, written by hand and by all three runners, are "
                "saved and loaded in memory, through JSON text and through files at any point, "
                "and validated against the same fold afterwards.",
    },
    "R01": {
        "driver": "d_runner:r01", "trace": "T_Runner", "models": SYNC + FORMS,
        "what": "SyncRunner proves, for every rule on a small ring, that collecting updates "
                "against the last finished state in any order gives the simultaneous step; "
                "real serial runs record every application with the complete state it saw, "
                "and TLC validates every step (each site once, previous state seen, merge).",
    },
    "R02": {
        "driver": "d_runner:r02", "trace": "T_Runner", "models": POOL,
        "scripts": m("MC_SyncRunner", "MC_SyncRunner_scripts"),
        "what": "ParallelPool proves, for every rule on a small ring and every schedule of the "
                "workers, that the pool takes serial steps (and not when workers keep a state "
                "of their own: control). Rules TLC enumerates and larger ones are run in real "
                "pools of 1 to N+3 workers with delays, and TLC computes every step itself; "
                "in other runs the workers record what each application saw.",
    },
    "R03": {
        "driver": "d_runner:r03", "trace": "T_Runner", "models": ASYNC,
        "scripts": m("MC_AsyncRunner", "MC_AsyncRunner_scripts",
                     deep="MC_AsyncRunner_scripts_deep"),
        "what": "AsyncRunner is model-checked with a controller that answers anything; its "
                "behaviours and random ones are replayed as controllers of the real runner, "
                "and TLC validates every request for sites and every application.",
    },
    "R04": {
        "driver": "d_runner:r04", "trace": "T_Runner", "models": SYNC + ASYNC[:2],
        "what": "Sequences of runs that share runner, controller and initial state, runs that "
                "continue from an output, and runs in which the rule fails; TLC validates "
                "every run and that initial states and earlier results are as before.",
    },
    "R05": {
        "driver": "d_runner:r05", "trace": "T_Runner", "models": FORMS,
        "scripts": m("MC_Forms", "MC_Forms_scripts", deep="MC_Forms_scripts_deep"),
        "what": "Forms proves that the forms are equivalent and that merging does not depend "
                "on order and grouping; every assignment of forms to sites TLC enumerates is "
                "run in all runners, and mixed random ones, and TLC validates every step.",
    },
    "R06": {
        "driver": "d_runner:r06", "trace": "T_Runner", "models": ASYNC[:2],
        "what": "The default choice is drawn many times from states with all kinds of IDs, "
                "and runs of controllers that rely on it are validated against AsyncRunner.",
    },
    "R07": {
        "driver": "d_runner:r07", "trace": "T_Runner", "models": SYNC + ASYNC[:1],
        "what": "SyncRunner proves that a run from any state of a run is the rest of it; chains "
                "of serial, parallel and asynchronous runs that go on from outputs, last steps, "
                "any step and stored and loaded states are computed in full by TLC.",
    },
    "G01": {
        "driver": "d_structure:g01", "trace": "T_Structure", "models": STRUCT,
        "scripts": STRUCT_S,
        "what": "Structure is model-checked over exact integer geometry (lookups find exactly "
                "the occupied points, IDs stay); scripts from it and random histories of adds "
                "and lookups are run in skewed, partly periodic and irrational lattices of 1 "
                "to 3 dimensions, and TLC validates every answer and every listing.",
    },
    "G02": {
        "driver": "d_structure:g02", "trace": "T_Structure", "models": STRUCT,
        "scripts": STRUCT_S,
        "what": "As G01, with most additions aimed at occupied points and their images; the "
                "whole structure is read back after every addition.",
    },
    "G03": {
        "driver": "d_structure:g03", "trace": "T_Structure", "models": GEOM,
        "what": "Structures built from random lattices, motifs (fractional and Cartesian) and "
                "sizes, and by the named builders, are compared by TLC with the exact tiling.",
    },
    "G04": {
        "driver": "d_structure:g04", "trace": "T_Structure", "models": STRUCT,
        "scripts": STRUCT_S,
        "what": "Saving and loading through dictionaries, JSON text with any key order and "
                "files at any point of a history; lattice, listings, lookups and state are "
                "validated as if nothing had happened.",
    },
    "G05": {
        "driver": "d_structure:g05", "trace": "T_Structure", "models": GEOM,
        "what": "MC_Geometry proves the exact wrapping and nearest-image distance consistent "
                "for every small lattice (and, for samples, in three and four dimensions); "
                "wrapped points and distances of the real code in random lattices of 1 to 4 "
                "dimensions are compared with them, with images and both orders.",
    },
    "G06": {
        "driver": "d_structure:g06", "trace": "T_Structure", "models": GEOM,
        "what": "Conversions in both directions, differences of fractional coordinates, scaled "
                "lattices, lengths of vectors and malformed lattices, compared with exact "
                "integer geometry (proved inverse and consistent in MC_Geometry).",
    },
    "N01": {
        "driver": "d_neighbors:n01", "trace": "T_Neighbors", "models": GEOM,
        "what": "Displacement motifs on random structures in skewed, partly periodic lattices "
                "of 1 to 4 dimensions; every answer and weight is validated against the exact "
                "integer geometry.",
    },
    "N02": {
        "driver": "d_neighbors:n02", "trace": "T_Neighbors", "models": GEOM,
        "what": "Distance and annular neighborhoods with cutoffs between and exactly at the "
                "occurring distances; answers, weights and symmetry are validated against the "
                "exact nearest-image distance.",
    },
    "N03": {
        "driver": "d_neighbors:n03", "trace": "T_Neighbors", "models": GEOM,
        "what": "Stochastic and class-dependent neighborhoods, nested in both ways; each answer "
                "has to be the complete answer of a component and all components have to occur.",
    },
    "N04": {
        "driver": "d_neighbors:n04", "trace": "T_Neighbors", "models": NEIGH,
        "what": "MC_Neighbors proves for every small grid that displacement motifs are the "
                "textbook shapes with wrap-around; answers of the named builders on grids of all "
                "shapes and of the honeycomb tiling are validated against those shapes.",
    },
    "N05": {
        "driver": "d_neighbors:n05", "trace": "T_Neighbors", "models": NEIGH,
        "what": "MC_Neighbors proves that boxes are the Moore displacements and how lengths relate "
                "to distances; lengths, distances and boxes of the real helpers are validated "
                "exactly.",
    },
    "M01": {
        "driver": "d_models:m01", "trace": "T_Models", "models": LIFE, "scripts": LIFE_S,
        "what": "Life is model-checked on every configuration of a torus and on known objects; "
                "configurations from it and random ones on grids of all shapes are evolved by "
                "serial and parallel runs under random rules, and TLC validates every step.",
    },
    "M02": {
        "driver": "d_models:m02", "trace": "T_Models", "models": GROWTH,
        "what": "Growth is model-checked from every configuration with few nuclei; runs on "
                "grids and on random structures with all kinds of neighborhoods are validated "
                "step by step, with every majority phase allowed in a tie; some in a fresh "
                "interpreter in which the growth model is the first thing imported.",
    },
    "D01": {
        "driver": "d_setups:d01", "trace": "T_Setups", "models": NUC,
        "what": "Sharing out and placing nuclei is model-checked (the round-robin sharing has a "
                "counterexample); setups for all sizes, buffers, counts and ratios, also ones "
                "without room, are validated: count, phases, shares, spacing over the edges.",
    },
    "D02": {
        "driver": "d_setups:d02", "trace": "T_Setups", "models": PART,
        "what": "Solid, interface, particle, coordinate, noise and random-particle setups in two "
                "and three dimensions are validated cell by cell against Setups, with exact "
                "integer distances; random particles by search for a placement.",
    },
    "D03": {
        "driver": "d_models:d03", "trace": "T_Models", "models": GROWTH,
        "what": "MC_Growth proves that the growth front reaches every cell within "
                "ceil(size * dim / 2) steps; grown microstructures for all neighborhoods, "
                "dimensions, sizes, ratios and buffers are validated against completeness.",
    },
    "A01": {
        "driver": "d_analysis:a01", "trace": "T_Analysis", "models": ANA,
        "what": "Queries by class, by criteria and by values (also absent keys and None) on "
                "random states with and without structure; TLC compares every answer and "
                "count with the set the specification selects.",
    },
    "A02": {
        "driver": "d_analysis:a02", "trace": "T_Analysis", "models": ANA,
        "what": "Statistics of random states, and of results of up to 1030 recorded steps with "
                "preloading in between, are compared with exact fractions the specification "
                "computes from the recorded updates; plotted traces included.",
    },
    "C01": {
        "driver": "d_convert:c01", "trace": "T_Convert", "models": CONV,
        "what": "Random crystals (skewed, partly periodic, irrational units, sites outside the "
                "cell, ions, dummies, mixed occupancy) are converted there and back; TLC "
                "compares lattice, periodicity, classes and locations up to whole periods.",
    },
    "V01": {
        "driver": "d_drawing:v01", "trace": "T_Drawing", "models": DRAW,
        "what": "Pixels of images of random grids, states, color maps, legends and cell sizes "
                "(shown and saved) are read back as blocks of colors; TLC compares every block "
                "with the picture Drawing specifies, and legends and color maps with the phases.",
    },
    "V02": {
        "driver": "d_drawing:v02", "trace": "T_Drawing", "models": DRAW,
        "what": "Animations of results of 1 to 25 steps at any frequency are written by the "
                "real worker pool and read back frame by frame; TLC compares each frame with "
                "the state of its step; leftover files and the result are checked, also "
                "after a failure.",
    },
    "V03": {
        "driver": "d_drawing:v03", "trace": "T_Drawing", "models": DRAW,
        "what": "Three-dimensional grids of all shapes are drawn, whole and as shells, and the "
                "boxes handed to the plotting library are noted; TLC compares them with the "
                "solid Drawing specifies (proved to show exactly the cells with an outer face).",
    },
}
