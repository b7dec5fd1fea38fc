"""Which contracts and which bounded scenarios decide each property."""
PYTHON = "/opt/venv/bin/python"

ALL = [("np", 4), ("jax", 2), ("tf", 2)]


def _b(module, groups=("np", "jax", "tf")):
  return [(module, g, n) for g, n in ALL if g in groups]


PROPS = {
    "P01": dict(contracts=["p01_graph", "p01_queries"], bounded=_b("graph"), level="other", vc=150),
    "P02": dict(contracts=["p02_contract"], bounded=_b("graph"), level="other"),
    "P03": dict(contracts=["p03_edges"], bounded=_b("graph"), level="other"),
    "P04": dict(contracts=["p04_split"], bounded=_b("graph"), level="other"),
    "P05": dict(contracts=["p05_decompositions"], bounded=_b("backendops"), level="other"),
    "P06": dict(contracts=["p06_ncon"], bounded=_b("network"), level="other"),
    "P07": dict(contracts=["p07_contractors"], bounded=_b("network"), level="other"),
    "P08": dict(contracts=["p08_copy"], bounded=_b("network", ("np",)), level="other"),
    "P09": dict(contracts=["p09_saving"], bounded=_b("network", ("np",)), level="other"),
    "P10": dict(contracts=["p10_mps"], bounded=_b("mps"), level="other"),
    "P11": dict(contracts=["p11_measure"], bounded=_b("mps"), level="other"),
    "P12": dict(contracts=["p12_dmrg", "p12_mpo"], bounded=_b("mps"), level="other"),
    "P13": dict(contracts=["p13_charges"], bounded=_b("symmetric", ("np",)), level="other"),
    "P14": dict(contracts=["p14_blocksparse"], bounded=_b("symmetric", ("np",)), level="other", vc=180),
    "P15": dict(contracts=["p15_decompositions"], bounded=_b("symmetric", ("np",)), level="other"),
    "P19": dict(contracts=["p19_scopes"], bounded=_b("scopes", ("np",)), level="other"),
    "P16": dict(contracts=["p16_solvers"], bounded=_b("paths", ("np",)), level="other"),
    "P17": dict(contracts=["p17_krylov"], bounded=_b("krylov", ("np",)), level="other"),
    "P20": dict(contracts=["p20_quantum"], bounded=_b("quantum"), level="other"),
    "P18": dict(contracts=["p18_operations"], bounded=_b("backendops"), level="other"),
    "P21": dict(contracts=["p21_keras"], bounded=[("keras", "tf", 8)], level="other"),
}

NOT_APPLICABLE = {}
