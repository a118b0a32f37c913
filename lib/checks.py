"""Which recorders, judges and exhaustive models decide which property."""
CHECKS = {
    "C01": dict(record=[dict(recorder="c01", judge="T_C01", shards=6, jit=1)],
                require=["unpacked", "refused"],
                note="Every recorded unpacking is compared with the one the TLA+ specification derives from the raw "
                     "description; sampled descriptions (fixed families plus seeded random), exact comparison."),
}
CHECKS["C02"] = dict(record=[dict(recorder="c02", judge="T_ALG", shards=7, jit=1)], require=["commute", "pairs", "templates"],
                     note="Whole relation compared, pair by pair, with the specification's rule on every sampled scenario "
                          "(fixed families, seeded random with hybrid sources and intermediate latents).")
CHECKS["C03"] = dict(record=[dict(recorder="c03", judge="T_ALG", shards=7, jit=1)], require=["reduce", "class", "moment", "pred"],
                     models=[dict(module="AlgebraMC", cfg="AlgebraMC.cfg", cfg_thorough="AlgebraMC_thorough.cfg", workers="4",
                                  what="the normal form against the rewriting rules, every commutation relation of few measurements")],
                     note="Sampled words and histories of reductions, exact comparison with the specification's normal form.")
CHECKS["C04"] = dict(record=[dict(recorder="c04", judge="T_ALG", shards=7, jit=1)], require=["matrix"],
                     models=[dict(module="SymmetryMC", cfg="SymmetryMC.cfg", cfg_thorough="SymmetryMC_thorough.cfg", workers="4",
                                  what="keys of moments against explicit models, every short word")],
                     note="Every cell of sampled moment matrices (NPA, local, physical, block and symmetry-closed custom "
                          "generating sets) is compared with the specification's key of the moment it stands for.")
CHECKS["C05"] = dict(record=[dict(recorder="c05", judge="T_ALG", shards=7, jit=1)], require=["factor", "everfact", "moment"],
                     note="Sampled products on sampled scenarios; factors compared exactly, listing order compared over "
                          "random interleavings.")
CHECKS["C06"] = dict(record=[dict(recorder="c06", judge="T_C06", shards=7, jit=1)], require=["dist", "know"],
                     note="Distributions of explicit models (dyadic, so that values are compared exactly) supplied to sampled "
                          "semidefinite and linear relaxations, with and without linearised factors and supports.")
CHECKS["C22"] = dict(record=[dict(recorder="c22", judge="T_C22", shards=6, jit=0)], require=["graph", "templates"],
                     models=[dict(module="Cliques", cfg="Cliques.cfg", cfg_thorough="Cliques_thorough.cfg",
                                  what="the enumeration algorithm on every graph")],
                     note="Exhaustive over all graphs on up to five vertices (six in the thorough tier); sampled above that.")
CHECKS["C07"] = dict(record=[dict(recorder="c07", judge="T_C07", shards=7, jit=1)], require=["columns", "symbolic", "explicit"],
                     note="Sampled specifications of every kind on sampled scenarios; sets compared exactly.")
CHECKS["C08"] = dict(record=[dict(recorder="c08", judge="T_C08", shards=7, jit=1)], require=["lp"],
                     note="Every variable, equality and inequality of sampled linear relaxations compared with the sets the "
                          "specification derives (all events up to the size bound, no abstraction).")
CHECKS["C09"] = dict(record=[dict(recorder="c09", judge="T_C09", shards=7, jit=1)], require=["norm"],
                     note="The set of normalisation equalities of sampled relaxations (with and without observed parents, "
                          "supports problems, irregular generating sets) compared exactly with the specification's.")
CHECKS["C10"] = dict(record=[dict(recorder="c10", judge="T_C10", shards=7, jit=1)], require=["model"],
                     note="Explicit models: finite classical sources with dyadic weights, and stabiliser states with Pauli "
                          "measurements for nonclassical sources; their exact expectations are computed by the specification.")
CHECKS["C23"] = dict(record=[dict(recorder="c23", judge="T_C23", shards=7, jit=1)],
                     require=["moments", "atoms", "lists", "equal", "conditions", "views", "relations", "marginal", "evaluate"],
                     note="Every attribute of sampled moments and factors, the lists derived from them and all dictionary, name and "
                          "sparse forms of the linear program's constraints compared with the specification.")
# behaviours of the program's state machine: the shortest history into every kind of situation, ended by every kind of call
PROG_GEN = dict(module="ProgramMC", cfg="ProgramGen.cfg", cfg_thorough="ProgramGen_thorough.cfg", env="BEH", mode="bfs", take=70, take_thorough=3000)
CHECKS["C11"] = dict(record=[dict(recorder="c11", judge="T_C11", shards=7, jit=1)], require=["call"], generators=[PROG_GEN],
                     models=[dict(module="ProgramMC", cfg="ProgramMC_sdp.cfg", cfg_thorough="ProgramMC_sdp_thorough.cfg", workers="4",
                                  what="every history of calls with few arguments on four moments")],
                     note="Sampled histories of public calls on sampled semidefinite relaxations; after every call the whole "
                          "state, and at every solve the whole program handed over, is compared with the state machine.")
CHECKS["C12"] = dict(record=[dict(recorder="c12", judge="T_C12", shards=7, jit=1)], require=["call"], generators=[PROG_GEN],
                     models=[dict(module="ProgramMC", cfg="ProgramMC_lp.cfg", cfg_thorough="ProgramMC_lp_thorough.cfg", workers="4",
                                  what="every history of calls with few arguments on four moments")],
                     note="Sampled histories of public calls on sampled linear relaxations; after every call the whole "
                          "state, and at every solve the whole program handed over, is compared with the state machine.")
CHECKS["C13"] = dict(record=[dict(recorder="c13", judge="T_C13", shards=7, jit=1)], require=["call"], generators=[PROG_GEN],
                     models=[dict(module="ProgramMC", cfg="ProgramMC_lp.cfg", cfg_thorough="ProgramMC_lp_thorough.cfg", workers="4",
                                  what="every history of calls with few arguments on four moments: results are of the current program")],
                     note="Sampled histories with scripted solver results (successful, infeasible, unknown) on both kinds of "
                          "relaxation; the results reported after every call are compared with the state machine.")
CHECKS["C14"] = dict(record=[dict(recorder="c14", judge="T_C14", shards=7, jit=1)], require=["lp"],
                     note="Sampled linear programs in every form of call (dictionaries, sparse matrices, mixtures; inferred "
                          "variables; relaxed or not; primal or dual) and programs of sampled relaxations; the task is read back "
                          "through the optimiser's own accessors and compared exactly with the stated program.")
CHECKS["C15"] = dict(record=[dict(recorder="c15", judge="T_C15", shards=7, jit=0)], require=["sdp"],
                     note="Sampled semidefinite programs (direct calls of every form, and programs of sampled relaxations); the "
                          "conic task Fusion builds is written out, read back through MOSEK's own accessors and compared exactly "
                          "with the stated program or its dual; scripted answers are read back.")
CHECKS["C16"] = dict(record=[dict(recorder="c16", judge="T_C16", shards=7, jit=0)], require=["cert"],
                     note="Sampled problems (compatible and incompatible distributions, partial values, objectives, bounds, relaxed "
                          "forms, both relaxations, primal and dual form) solved by a stand-in for the optimiser that returns genuine "
                          "dual proofs; the certificates read back are evaluated by the specification on explicit classical and "
                          "stabiliser models and on the supplied data.")
CHECKS["C17"] = dict(record=[dict(recorder="c17", judge="T_C17", shards=7, jit=0)], require=["clean", "poly", "cert"],
                     note="Sampled coefficient dictionaries, polynomials written in every accepted form, and certificates of sampled "
                          "relaxations; every view is parsed and compared with the polynomial meant, and evaluations with the "
                          "specification's marginals.")
CHECKS["C18"] = dict(record=[dict(recorder="c18", judge="T_C18", shards=7, jit=0)], require=["ops", "moms", "read", "effect", "cols"],
                     note="All operator names and all moment names of sampled scenarios (unusual alphanumeric party names, two-digit "
                          "outcomes, settings and several copies) are compared pairwise and read back in every accepted form; products "
                          "of operators written in several ways are compared with the moment the specification derives; every "
                          "setter is exercised by object, name, symbol, expression and mixtures of them.")
CHECKS["C19"] = dict(record=[dict(recorder="c19", judge="T_C19", shards=7, jit=0)], require=["file"],
                     note="Files written after sampled histories of calls on sampled linear relaxations, and for sampled arguments given "
                          "directly, are read by MOSEK's own reader of the format and compared exactly, as programs, with what the "
                          "solver's entry point receives.")
CHECKS["C20"] = dict(record=[dict(recorder="c20", judge="T_C20", shards=7, jit=0)], require=["file"],
                     note="Files of the three formats written after sampled histories of calls on sampled semidefinite relaxations are "
                          "read by the formats' rules and compared exactly, as programs, with what the solver's entry point receives; "
                          "the variables of an SDPA file are identified by their places in the moment matrix.")
CHECKS["C21"] = dict(record=[dict(recorder="c21", judge="T_C21", shards=7, jit=0)], require=["search"],
                     models=[dict(module="SearchMC", cfg="SearchMC.cfg", cfg_thorough="SearchMC_thorough.cfg",
                                  what="both searches on every family of linear pieces on a grid")],
                     note="Searches by both methods on sampled relaxations; the solver's entry point is replaced by one that evaluates a "
                          "known family, a minimum of polynomials in the parameter written in the known moments.  The two "
                          "searches themselves are checked exhaustively over all families of up to two (three) linear pieces on a grid.")
NA = {}


def level(c):
    """exhaustive models of the specification beside the recordings, or recordings only"""
    return c.get("level", "model_checking" if c.get("models") else "exploration")
