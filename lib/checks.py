"""The registry: per property the design models, the drivers and the trace specification."""


def split(script, n):
    return [(script, str(k), str(n)) for k in range(n)]


CHECKS = {
    "C01": dict(
        design=["AssocScanDesign"], drivers=[("C01.py",)], trace="AssocScanTrace",
        ops=["scan", "scan_table", "scan_mat"]),
    "C02": dict(
        design=["FSCDesign"], drivers=[("C02.py",)], trace="FSCTrace",
        ops=["backward", "forward", "simulate", "cost", "batch"]),
    "C03": dict(
        design=["FSCDesign"], drivers=[("C03.py",)], trace="FSCTrace",
        ops=["backward", "forward", "fwdbwd", "combine_V", "combine_f"]),
    "C04": dict(
        design=["FSCDesign"], drivers=split("C04.py", 4), trace="FSCTrace",
        ops=["convert", "backward", "forward", "fwdbwd"]),
    "C05": dict(
        design=["ViterbiDesign"], drivers=[("C05.py",)], trace="ViterbiTrace",
        ops=["decode", "control", "back"]),
    "C06": dict(
        design=["ViterbiDesign"], drivers=split("C06.py", 4), trace="ViterbiTrace",
        ops=["decode"]),
    "C07": dict(
        design=["LQTDesign"], drivers=split("C07.py", 1), trace="LQTTrace",
        ops=["backward", "forward", "simulate", "cost"]),
    "C08": dict(
        design=["LQTDesign"], drivers=split("C08.py", 1), trace="LQTTrace",
        ops=["backward", "forward", "optimal", "combine_V", "combine_f"]),
    "C10": dict(
        design=["LQTDesign"], drivers=split("C10.py", 1), trace="LQTTrace",
        ops=["reg_backward", "reg_forward", "reg_iter", "reg_double", "dare", "limit"]),
    "C09": dict(
        design=["LQTDesign"], drivers=split("C09.py", 6), trace="LQTTrace",
        ops=["backward", "forward", "optimal", "cost"]),
    "C11": dict(
        design=["CondenseDesign"], drivers=split("C11.py", 8), trace="LQTTrace",
        ops=["condensed", "condensed_solution"]),
    "C12": dict(
        design=["NLQTDesign"], drivers=split("C12.py", 6), trace="NLQTTrace",
        ops=["linearize", "iterate", "fixed_point", "simulate", "cost"]),
    "C13": dict(
        design=["SQPDesign"], drivers=split("C13.py", 8), trace="SQPTrace",
        ops=["qp", "derivs", "bfgs", "newton", "newton_steps", "stopped", "bfgs_run"]),
    "C14": dict(
        design=["OdeDesign"], drivers=split("C14.py", 4), trace="OdeTrace",
        ops=["rk4", "disc"]),
    "C15": dict(
        design=["CLQTDesign"], drivers=split("C15.py", 3), trace="CLQTTrace",
        ops=["backward", "forward", "values", "meet", "elements"]),
    "C16": dict(
        design=["CLQTDesign"], drivers=split("C16.py", 8), trace="CLQTTrace",
        ops=["backward", "forward", "values", "meet"]),
    "C17": dict(
        design=["PararealDesign"], drivers=split("C17.py", 8), trace="PararealTrace",
        ops=["backward", "forward", "values", "solve"]),
    "C18": dict(
        design=["HjbDesign"], drivers=split("C18.py", 8), trace="HjbTrace",
        ops=["combine", "scan", "blocks", "fd", "shoot", "table"]),
    "C19": dict(
        design=["SetupDesign"], drivers=split("C19.py", 2), trace="SetupTrace",
        ops=["fsc", "lqt"]),
    "C20": dict(
        design=["PurityDesign"], drivers=split("C20.py", 6), trace="PurityTrace",
        ops=["give", "edit", "call"]),
    "C21": dict(
        design=["ModelsDesign"], drivers=split("C21.py", 4), trace="ModelsTrace",
        ops=["text", "codec", "noisy", "channel", "game", "walk", "walk_lqt", "curve",
             "car", "round", "car_lqt", "guess", "chain", "grid", "reach", "sizes"]),
}
