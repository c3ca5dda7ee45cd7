# per-property configuration used by run.py
def cfg(src=None, py=None, flavour="plain", tools=(), omp=1, quick=(20000, 25), thorough=(4000000, 420), **kw):
    d = dict(flavour=flavour, tools=list(tools), omp=omp,
             quick=dict(cases=quick[0], secs=quick[1]), thorough=dict(cases=thorough[0], secs=thorough[1]))
    if src:
        d["src"] = src
    if py:
        d["py"] = py
    d.update(kw)
    return d


CHECKS = {
    "T01": cfg("t01_tracking.cpp", quick=(2000000, 15), thorough=(200000000, 300)),
    "T02": cfg("t02_independence.cpp", quick=(1500000, 12), thorough=(200000000, 300)),
    "T03": cfg("t03_trajectory.cpp", flavour="san", quick=(600000, 12), thorough=(200000000, 300)),
    "R01": cfg("r01_retarded.cpp", quick=(6000000, 15), thorough=(200000000, 300)),
    "R02": cfg("r02_fieldtrace.cpp", quick=(3000000, 15), thorough=(200000000, 300)),
    "F01": cfg("f01_traces.cpp", flavour="san", quick=(1500000, 15), thorough=(200000000, 300)),
    "L01": cfg("l01_lattice.cpp", quick=(2000000, 12), thorough=(200000000, 300)),
    "L02": cfg("l02_magnets.cpp", quick=(2000000, 12), thorough=(200000000, 300)),
    "L03": cfg("l03_waves.cpp", quick=(2000000, 12), thorough=(200000000, 300)),
    "B01": cfg("b01_distribution.cpp", quick=(2000000, 12), thorough=(200000000, 300)),
    "B02": cfg("b02_diagnostics.cpp", quick=(2000000, 12), thorough=(200000000, 300)),
    "B03": cfg("b03_files.cpp", flavour="san", quick=(100000, 15), thorough=(200000000, 300)),
    "O01": cfg("o01_loggers.cpp", flavour="san", quick=(60000, 15), thorough=(200000000, 300)),
    "O02": cfg("o02_point.cpp", flavour="san", quick=(200000, 12), thorough=(200000000, 300)),
    "O03": cfg("o03_screen.cpp", flavour="san", quick=(60000, 13), thorough=(200000000, 300)),
    "O04": cfg("o04_snapshot.cpp", flavour="san", quick=(60000, 13), thorough=(200000000, 300)),
    "O05": cfg("o05_mesh.cpp", flavour="san", quick=(60000, 15), thorough=(200000000, 300)),
    "S01": cfg("s01_source.cpp", flavour="san", quick=(40000, 15), thorough=(200000000, 300)),
    "S02": cfg("s02_propagate.cpp", tools=("propagate", "reflection"), quick=(40000, 20), thorough=(200000000, 300)),
    "I01": cfg("i01_calculator.cpp", flavour="san", quick=(200000, 15), thorough=(200000000, 300)),
    "I02": cfg("i02_input.cpp", flavour="san", quick=(200000, 20), thorough=(200000000, 300)),
    "I03": cfg("i03_malformed.cpp", flavour="san", case_timeout=30, quick=(200000, 20), thorough=(200000000, 300)),
    "E01": cfg("e01_teufel.cpp", tools=("teufel",), quick=(40000, 30), thorough=(200000000, 300)),
    "E02": cfg("e02_faults.cpp", flavour="san", tool_flavour="plain", tools=("teufel",), quick=(40000, 30), thorough=(200000000, 300)),
    "E03": cfg("e03_relations.cpp", tools=("teufel",), quick=(40000, 30), thorough=(200000000, 300)),
    "P01": cfg("p01_scripts.cpp", quick=(200000, 20), thorough=(200000000, 300)),
    "P02": cfg("p02_meshes.cpp", quick=(200000, 20), thorough=(200000000, 300)),
    "P03": cfg("p03_plots.cpp", quick=(200000, 25), thorough=(200000000, 300)),
    "U01": cfg("u01_fel.cpp", flavour="san", quick=(200000, 12), thorough=(200000000, 300)),
}
