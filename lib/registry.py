"""Which check decides which property."""
from alg import *
from vec import vec_check
from cur import cur_check
from single import single_check
from text import text_check
from huge import huge_check
from share import share_check
from instr import instr_check
from window import window_check
from ub import ub_check

CHECKS = {
    "C01": alg_check(["COPY", "MOVE"]),
    "C02": alg_check(["COPYB"]),
    "C03": alg_check(["FILL"]),
    "C04": alg_check(["SHL"]),
    "C05": alg_check(["SHR"]),
    "C06": alg_check(["ROT"]),
    "C07": alg_check(["REV"]),
    "C08": alg_check(["SWAPR"]),
    "C09": alg_check(UN),
    "C10": alg_check(BI, mc_size=3),
    "C11": alg_check(["EQUAL"]),
    "C12": alg_check(["FIND"]),
    "C13": alg_check(["COUNT"]),
    "C14": alg_check(OWN, profile=3, mc_ops=[]),
    "C15": alg_check(OWN[:OPS.index("SORT")] + UN + BI, profile=1, configs=["scalar", "hwy", "avx2", "native"], mc_ops=[]),
    "C16": alg_check(OWN, STD, profile=2, configs=["scalar", "hwy", "clang"], mc_ops=["SORT", "REVC", "ROTC"]),

    "C17": vec_check("H", ["scalar", "hwy", "clang"]),
    "C18": vec_check("G", ["scalar", "clang"]),
    "C19": vec_check("N", ["scalar", "clang"], ["scalar"]),
    "C20": vec_check("K", ["scalar", "hwy"]),
    "C21": vec_check("M", ["scalar", "clang"], ["scalar"]),
    "C22": vec_check("E", ["scalar", "clang"]),
    "C23": cur_check("02345", ["scalar", "clang"]),
    "C24": cur_check("1", ["scalar", "clang"]),
    "C25": single_check(["scalar", "hwy", "clang"]),
    "C26": text_check(["scalar", "clang"]),
    "C27": vec_check("F", ["scalar", "clang"], ["scalar"]),
    "C28": huge_check(["scalar", "hwy"]),
    "C29": share_check(["tsan", "tsanhwy"]),
    "C30": vec_check("S", ["asan", "scalar"], ["hwy"]),
    "C31": instr_check(["o0", "scalar", "clang"]),
    "C32": ub_check(["ubsan"], ["ubsanhwy"]),
    "C33": window_check(["scalar", "clang", "o0", "asan"]),
}
