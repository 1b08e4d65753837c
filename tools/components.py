LIB = ["-fno-rtti", "-D_GLIBCXX_ASSERTIONS"]
EIGEN = ["-isystem", "/usr/include/eigen3"]
BOOST = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system"]
TRAJ = ["real_1d_rk4", "real_1d_rk4_coefficients", "real_1d_rk4_jump", "real_1d_kinetic_rk4", "real_1d_kinetic_rk4_coefficients",
        "real_2d_rk4_jump"]
COMPONENTS = {
    "trajectory": dict(src=["traj.cpp"], progs=TRAJ, libs=BOOST),
    "trajectory_long": dict(src=["traj.cpp"], progs=TRAJ + ["trivial"], libs=BOOST, plain=True, flags=["-DLASTING"]),
    "crash": dict(src=["crash.cpp"], progs=TRAJ, libs=BOOST),
    "disk": dict(src=["disk.cpp"], progs=TRAJ, libs=BOOST),
    "diskplain": dict(src=["diskplain.cpp"], progs=["trivial", "dispersion_1d"], small=True),
    "printing": dict(src=["printing.cpp"], progs=["commutators_real_space", "commutators_momentum_space"]),
    "rsp": dict(src=["rsp.cpp"], progs=TRAJ, libs=BOOST),
    "lines": dict(src=["lines.cpp"], flags=LIB),
    "checkpoint": dict(src=["checkpoint.cpp"], flags=["-D_GLIBCXX_ASSERTIONS", "-I@REPO@/src/hubbard"], libs=BOOST),
    "trim": dict(src=["trim.cpp"], flags=["-D_GLIBCXX_ASSERTIONS", "-I@REPO@/src/hubbard"], libs=BOOST),
    "env": dict(src=["env.cpp"], progs=TRAJ, libs=BOOST),
    "theory_small": dict(src=["theory.cpp", ("theory_ref.cpp", ["plain"])], small=True, needs_small=True, flags=["-DSMALL_N=6", "-DSMALL_STEPS=24"]),
    "theory_full": dict(src=["theory.cpp", ("theory_ref.cpp", ["plain"])], progs=["real_1d_kinetic_theory"], plain=True),
    "momentum": dict(src=["momentum.cpp"], progs=["momentum_1d_rk4"], libs=BOOST),
    "disk_momentum": dict(src=["momentum.cpp"], progs=["momentum_1d_rk4"], libs=BOOST, flags=["-DDISK"]),
    "dispprog": dict(src=["dispprog.cpp"], progs=["dispersion_1d"]),
    "occ": dict(src=["occ.cpp"], flags=LIB),
    "jump": dict(src=["jump.cpp"], flags=LIB),
    "ev": dict(src=["ev.cpp"], flags=LIB),
    "disp": dict(src=["disp.cpp"], flags=LIB),
    "conj": dict(src=["conj.cpp"], flags=LIB),
    "matvec_eigen": dict(src=["matvec.cpp"], flags=LIB + EIGEN),
    "matvec_blaze": dict(src=["matvec.cpp"], flags=LIB + ["-DUSE_BLAZE"]),
    **{n + "_large": dict(src=[n + ".cpp"], flags=LIB + ["-DLARGE"], srcplain=True) for n in ("occ", "jump", "ev", "disp", "conj")},
    "matvec_eigen_large": dict(src=["matvec.cpp"], flags=LIB + EIGEN + ["-DLARGE"], srcplain=True),
    "callers": dict(src=["callers.cpp"], flags=LIB + EIGEN),
    **{"callers_" + p: dict(src=["callers.cpp"], flags=LIB + EIGEN + ["-DKINDS=" + k, '-DPROPERTY="%s"' % p, '-DCOMPONENT="callers_%s"' % p])
       for p, k in {"C01": "J_OCC1,J_OCC3", "C02": "J_JUMP1,J_JUMP3,J_JUMP2D,J_JUMP_NO1,J_JUMP_NO3", "C03": "J_EV1,J_EV2",
                    "C04": "J_DISP1,J_DISP2", "C05": "J_CONJ1,J_CONJ3,J_CONJ_MOM",
                    "C06": "J_MUL_BLAZE,J_MUL_BLAZE_REAL,J_MUL_EIGEN"}.items()},
    "alloc": dict(src=["alloc.cpp"], flags=LIB + EIGEN),
    "side": dict(src=["side.cpp"], flags=["-D_GLIBCXX_ASSERTIONS", "-I@REPO@/src/hubbard"], progs=TRAJ + ["dispersion_1d"], libs=BOOST),
    **{"selftest%d" % i: dict(src=["selftest.cpp"], flags=["-DPLANT=%d" % i]) for i in range(4)},
    "selffiles": dict(src=["selffiles.cpp"]),
    "history": dict(src=["history.cpp"], flags=LIB + EIGEN),
}
# a copy of the kinetic-theory program with smaller constants (each pattern must match exactly once, or the copy is left out)
SMALL = dict(src="hubbard_real_1d_kinetic_theory.cpp", name="theory_small",
             subst=[(r"(const\s+(?:std::)?uint64_t\s+N\s*=\s*)128\s*;", r"\g<1>6;"),
                    (r"(const\s+(?:std::)?uint64_t\s+steps\s*=\s*)10000\s*;", r"\g<1>24;")])
# names that the components give themselves in replay files, where they differ
NAMES = {"site_occupation": "occ", "fermi_jump": "jump", "expectation_value": "ev", "dispersion": "disp", "dispersion_program": "dispprog",
         "conjugate_basis": "conj", "multiply_assign_eigen": "matvec_eigen", "multiply_assign_blaze": "matvec_blaze",
         "concurrent_callers": "callers", "site_occupation_large": "occ_large", "fermi_jump_large": "jump_large",
         "expectation_value_large": "ev_large", "dispersion_large": "disp_large", "conjugate_basis_large": "conj_large",
         "multiply_assign_eigen_large": "matvec_eigen_large", "response": "rsp", "disk_plain": "diskplain", "environment": "env", "side_by_side": "side"}
SCHED = "thread schedules, team sizes, loop hand-outs and stalls of the OpenMP runtime, and inputs"
PROPERTIES = {
    "C01": dict(components=[("occ", 6), ("occ_large", 1), ("callers_C01", 2)], what=SCHED, oracle="an independent serial sum over all pairs of basis elements"),
    "C02": dict(components=[("jump", 6), ("jump_large", 1), ("callers_C02", 2)], what=SCHED, oracle="an independent serial Fourier sum"),
    "C03": dict(components=[("ev", 6), ("ev_large", 1), ("callers_C03", 2)], what=SCHED, oracle="the closed forms"),
    "C04": dict(components=[("disp", 6), ("disp_large", 1), ("callers_C04", 2), ("dispprog", 2)], what=SCHED, oracle="the closed form"),
    "C05": dict(components=[("conj", 6), ("conj_large", 1), ("callers_C05", 2)], what=SCHED, oracle="an independently written list of conjugated operators"),
    "C06": dict(components=[("matvec_eigen", 3), ("matvec_eigen_large", 1), ("matvec_blaze", 3), ("callers_C06", 1)], what=SCHED, oracle="an independent serial product"),
    "C07": dict(components=[("callers", 1)], what="interleavings of concurrent application threads and their OpenMP teams, and inputs",
                oracle="what each call must return on its own (independent serial references)"),
    "C08": dict(components=[("history", 1)], what="histories of calls in one process (sizes, types, copies, failed allocations, schedules)",
                oracle="independent serial references"),
    "C09": dict(components=[("alloc", 1)], what="allocation failures at every allocation outside parallel regions, and inputs",
                oracle="bad_alloc reported, live heap blocks, unchanged inputs and independent references for the repeated call"),
    "C11": dict(components=[("trajectory", 3), ("trajectory_long", 2), ("momentum", 1)], what="thread schedules, team sizes and program parameters over simulated processes",
                oracle="an independent integration of the equations of motion and independent observables"),
    "C12": dict(components=[("crash", 1)], what="crash points (every matrix product and file operation, torn writes), short and interrupted writes, schedules and program parameters",
                oracle="an independent integration, and the number of measurements finished before the instant of death"),
    "C13": dict(components=[("disk", 4), ("disk_momentum", 1), ("diskplain", 1), ("printing", 1)], what="file faults (failing opens, full disk, I/O errors, failing closes, short and interrupted writes), schedules and parameters",
                oracle="exit status against the rows of an undisturbed run, which are checked against an independent integration"),
    "C14": dict(components=[("rsp", 1)], what="crashes while the response file is written, its truncation at any byte, missing and unreadable files, read faults, and parameters",
                oracle="an independent integration, and the same program started with the surviving options on its command line"),
    "C15": dict(components=[("lines", 1)], what="contents, splitting of the source's data, and its end or failure at any byte",
                oracle="the same text split by an independent reader"),
    "C16": dict(components=[("checkpoint", 1)], what="crashes at every file operation, torn, short and interrupted writes, disk errors, histories of processes, damaged files and failing reads",
                oracle="the vectors and times passed in, and which calls were reported as finished"),
    "C17": dict(components=[("trim", 1)], what="crashes at every file operation, torn, short and interrupted writes and reads, disk errors, contents and row counts",
                oracle="the original bytes"),
    "C18": dict(components=[("env", 1)], what="environment variables, host-name lengths and failures, clock jumps, thread settings, schedules and parameters",
                oracle="an independent integration and the header of an ordinary run"),
    "C19": dict(components=[("side", 1)], what="interleavings of several processes in one directory, the death, disk errors or restart of one of them, and parameters",
                oracle="what each of them leaves when it runs alone, and an independent integration"),
    "C10": dict(components=[("theory_small", 2), ("theory_full", 1)], what=SCHED, oracle="an independent evaluation of the double sum with the Bessel functions of the C library"),
}
