"""Which contracts and concrete evaluators decide which property."""
TRUSTED = [
    "the verifier itself: engine/*.py (symbolic executor over LLVM IR, invariant inference is untrusted, the normaliser of sums and field terms is trusted)",
    "Z3 4.x for linear integer and boolean side conditions",
    "clang 18 / opt: compilation of the templates to LLVM IR and the listed scalar/CFG simplification passes",
    "harness/vt.hpp: opaque scalar, matrix and vector classes that instantiate the templates (no code of /repo is dropped or rewritten)",
    "scalars are treated as elements of a field with conjugation (floating-point rounding is not modelled)",
    "index arithmetic is treated as mathematical integers; every unsigned wrap-around that matters is a separate 'nowrap'/'bounds' obligation",
]
VAL = {"post", "termination", "unreachable", "check", "vacuous", "nowrap", "precondition", "contract"}
FRAME = {"bounds", "frame", "frame-read", "frame-write", "assert", "separation"}
SHORT = {"no-data-branch", "no-zero-product"}
B3 = ["gemm_tasks", "symm_tasks", "rk_tasks", "trmm_tasks"]
PROPS = {
    "P01": dict(proof=[("blas", B3)], kinds=VAL,
                search=[("blas", "gemm hemm symm herk syrk her2k syr2k trmm".split(), {"value"})]),
    "P02": dict(proof=[("blas", ["trsm_tasks", ("trv_tasks", ["trsv"])]), ("inv", ["trsmtri_tasks"]), ("chol", ["potrs_tasks"])], kinds=VAL,
                search=[("blas", "trsm trsv".split(), {"value"}), ("lu", ["trsm_tri"], None), ("chol", ["potrs"], None)]),
    "P03": dict(proof=[("blas", ["blas2_tasks", "blas1_tasks", ("trv_tasks", ["trmv"])])], kinds=VAL,
                search=[("blas", "trmv gemv ger geru hemv symv her syr her2 syr2 level1".split(), {"value"})]),
    "P04": dict(proof=[("blas", B3 + ["trsm_tasks", "trv_tasks", "blas2_tasks", "blas1_tasks"])], kinds=FRAME,
                search=[("blas", [], {"frame", "access"})]),
    "P05": dict(proof=[("blas", B3 + ["trsm_tasks", "trv_tasks", "blas2_tasks", "blas1_tasks"])], kinds=SHORT,
                search=[("blas", [], {"shortcut", "access"})]),
    "P07": dict(proof=[("chol", ["potrf2_tasks", "potf2_tasks", "blocked_tasks", "potrf_tasks", "potrs_tasks"])], kinds=None,
                search=[("chol", "potf2 potrf2 potrf_blocked potrf_rl potrf potrs pbtrf pttrf".split(), None)]),
    "P09": dict(proof=[("inv", ["trtri_tasks", "uili_tasks", "potri_tasks"])], kinds=None,
                search=[("lu", "trtri getri_uili getri_uxli getri potri".split(), None)]),
    "P08": dict(proof=[("lap1", ["trmm_blocked_tasks", "lauum_tasks", "mult_tasks", "hemm2_tasks", "hehe_tasks", "gemmtr_tasks", "trmm_out_tasks"])], kinds=None,
                search=[("tri", "lauum_recursive mult_llh lu_mult hemm2 mult_hehe gemmtr trmm_out trmm_blocked_mixed".split(), None)]),
    "P12": dict(proof=[("lap1", ["copy_tasks"])], kinds=None,
                search=[("tri", "lacpy laset conjugate transpose".split(), None)]),
    "P10": dict(proof=[("hh", ["larf_tasks", "larf2_tasks", "larft_tasks", "larfb_tasks"]), ("hhq", ["unmq2_tasks", "ungq2_tasks"])], kinds=None,
                search=[("hh", "larfg larf larft larfb unmq_level2 unmq unm2r_like unmqr_like householder_q_mul ungq_level2 ungq ung2r_like ungqr_like gen_householder_q".split(), None)]),
    "P06": dict(proof=[("lu", ["getrf0_tasks"])], kinds=None,
                search=[("lu", "getrf_level0 getrf_recursive getrf".split(), None)]),
    "P11": dict(proof=[("qr", ["fac_tasks"]), ("red", ["gehd2_tasks", "gebd2_tasks"])], kinds=None,
                search=[("qr", "geqr2 geqrf householder_qr gelq2 gelqf householder_lq geql2 geqlf householder_ql gerq2 gerqf householder_rq geqrt3 gelqt gehd2 gehrd hessenberg gebd2 gebrd bidiag hetd2".split(), None)]),
    "P15": dict(proof=[("rot", ["rotseq_tasks", "rotg_tasks", "rotm_tasks"]), ("blas", [("blas1_tasks", ["rotv"])])], kinds=None,
                search=[("rot", [], None)]),
    "P16": dict(proof=[("scale", ["rscl_tasks", "ladiv_tasks", "lascl_tasks"])], kinds=None,
                search=[("scale", [], None)]),
    "P17": dict(proof=[("eig", ["shift_tasks", "eig22_tasks"])], kinds=None,
                search=[("eig", [], None), ("trevc", [], None), ("trevc3", [], None)]),
    "P19": dict(proof=[("eig", ["qzshift_tasks"])], kinds=None,
                search=[("qz", [], None)]),
    "P20": dict(proof=[("work", ["info_tasks"]), ("hh", ["larfw_tasks", "larf2_tasks"]), ("qr", ["fac_tasks"]), ("hhq", ["unmq2_tasks", "ungq2_tasks"]), ("red", ["gehd2_tasks", "gebd2_tasks"])], kinds=None,
                search=[("work", [], None)]),
    "P21": dict(proof=[("legacy", ["lgemm_tasks", "lblas3_tasks", "ltrsm_tasks", "lblas2_tasks", "lblas1_tasks"]), ("legacylap", ["llap_tasks", "lnorm_tasks"])], kinds=None,
                search=[("legacy", [], None)]),
    "P22": dict(proof=[("views", ["view_tasks"])], kinds=None,
                search=[("views", [], None)]),
    "P18": dict(proof=[("sym22", ["lae2_tasks", "sv22_tasks"])], kinds=None,
                search=[("svd", [], None)]),
    "P13": dict(proof=[("norms", ["lange_tasks", "sym_tasks", "lantr_tasks", "infwork_tasks"]), ("sym22", ["lapy_tasks"])], kinds=None,
                search=[("norms", "lange lansy lanhe lantr lassq lapy".split(), None)]),
    "P14": dict(proof=[("norms", ["has_tasks"])], kinds=None, search=[("norms", "has iamax".split(), None)]),
}
