#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

I = "include/ieompp/"
R = I + "models/hubbard_real_space/"
S = "src/hubbard/"

prop("C01", "Site occupation is exact under every thread schedule",
  "Evaluating the site-occupation observable (one-operator basis, and three-operator basis with and without exploiting inversion symmetry) for any coefficient vector returns, up to floating-point rounding, the sum over all pairs of basis elements of coefficient times conjugate coefficient times half the expectation value of the pair. This holds for every number of worker threads, every team size the OpenMP runtime delivers, every hand-out of loop chunks and every interleaving. An evaluation never aborts, writes outside its storage or loses a contribution because of any of these.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and chunk hand-out of every team of up to 64 threads, every lattice size, every (also complex) coefficient vector",
  "The tests evaluate one fixed real vector per basis size on whatever schedule the host produces; lost updates, wrong accumulator slots and undersized accumulators need a particular team size or interleaving, and the existing reality assertion depends on the summation order for generic complex vectors.",
  [R + "site_occupation.hpp", I + "types/number/complex.hpp", I + "openmp.hpp"],
  [("per-thread accumulators indexed by the thread number, summed after the loops", R + "site_occupation.hpp"),
   ("implicit barriers of the parallel loops", R + "site_occupation.hpp")],
  [("results", "one partial sum per possible thread", R + "site_occupation.hpp")],
  ["return value of the observable"])

prop("C02", "Fermi jump is exact under every thread schedule",
  "For every lattice, Fermi momentum, expectation-value function and coefficient vector the Fermi-jump observables (one-dimensional with one- and three-operator basis, two-dimensional, and the normal-ordered variants) return, up to rounding, the squared magnitude of the Fourier sum at the Fermi momentum of the (normal-order corrected) one-operator coefficients, and their Fourier coefficients are the phases of the lattice sites. This holds for every number of threads, delivered team size, chunk hand-out and interleaving, without touching memory outside the object's storage.",
  ["schedules", "inputs", "configurations"],
  "every interleaving and team size, every lattice size and coefficient vector",
  "One test checks the 1D three-operator jump at one Fermi momentum under the host's own schedule; the 2D and normal-ordered observables and the one-operator basis are never executed by a test.",
  [R + "fermi_jump/1d.hpp", R + "fermi_jump/2d.hpp", R + "fermi_jump_no.hpp"],
  [("disjoint writes of the normal-ordered coefficients", R + "fermi_jump/1d.hpp"),
   ("per-thread accumulators combined after the loop", R + "fermi_jump/1d.hpp")],
  [("Fourier coefficients", "phase factor of each site", R + "fermi_jump/1d.hpp")],
  ["return value of the observable", "Fourier coefficient accessor"])

prop("C03", "Expectation-value tables are exact and complete on every schedule",
  "Once constructed, the one- and two-dimensional two-operator expectation values return, for every pair of sites, the closed form in the periodic distance of the pair (filling factor at distance zero; sine over distance for the chain; the product form for the square lattice). Every entry of the table is the final value when the constructor returns, for every lattice size, filling, Fermi momentum, spacing, number of threads, team size and interleaving.",
  ["schedules", "inputs", "configurations"],
  "every schedule of the table-filling loops; all lattice sizes including 1, 2, odd, and non-square",
  "The tests compare a few sizes once under the host schedule; a shared temporary, a missing barrier or a mis-partitioned loop shows only in some interleavings or sizes.",
  [R + "expectation_value.hpp", I + "lattices/periodic_chain.hpp", I + "lattices/periodic_square_lattice.hpp"],
  [("each iteration writes its own table entry", R + "expectation_value.hpp"),
   ("periodic distance as table index", I + "lattices/periodic_chain.hpp")],
  [("values", "one entry per distance", R + "expectation_value.hpp")],
  ["call operator for every pair of sites"])

prop("C04", "Dispersion values are exact and complete on every schedule",
  "A dispersion built from a momentum space and a lattice holds, for every momentum, minus two times the hopping times the sum over the lattice vectors of the cosine of momentum times vector, and the dispersion program writes one such row per momentum of the Brillouin zone in ascending order. All values are final when construction returns, whatever the number of threads, team size and interleaving, in one and in two dimensions.",
  ["schedules", "inputs", "configurations"],
  "every schedule of the dispersion loop, every size, hopping and lattice spacing, one and two dimensions",
  "The tests evaluate small sizes once under the host schedule and never run the program.",
  [I + "models/hubbard/dispersion.hpp", S + "hubbard_dispersion_1d.cpp"],
  [("iteration-private accumulator, one table entry per iteration", I + "models/hubbard/dispersion.hpp")],
  [("values", "energy per momentum", I + "models/hubbard/dispersion.hpp")],
  ["call operator", "dispersion.txt"])

prop("C05", "Conjugate bases are complete and leave the original alone",
  "Taking the conjugate of a real-space or momentum-space operator basis returns a basis of the same length and order whose every element is the Hermitian conjugate (operators reversed, creators and annihilators exchanged, indices kept) of the corresponding element, and does not modify the original; the in-place form does the same to the basis itself. Doing it twice restores the original. This holds under every number of threads, team size and interleaving.",
  ["schedules", "inputs", "configurations"],
  "every schedule of the conjugation loops; all basis kinds and sizes",
  "Unit tests conjugate single monomials; no test compares a whole conjugated basis, let alone under a different team or interleaving.",
  [R + "basis.hpp", I + "models/hubbard_momentum_space/basis.hpp", I + "algebra/monomial/monomial.hpp"],
  [("copy first, then each iteration conjugates its own element", R + "basis.hpp")],
  [("basis elements", "monomials in basis order", R + "basis.hpp")],
  ["elements of both bases"])

prop("C06", "In-place product with a function matrix is exact on every schedule",
  "Multiplying a vector in place by a quadratic function matrix leaves in the vector exactly the matrix-vector product of the matrix and the vector's value before the call, for the Eigen and the Blaze vector types, any size and scalar type. Rows are computed concurrently, yet no row ever sees a partly updated vector or a result left over from an earlier product, under any number of threads, team size or interleaving.",
  ["schedules", "inputs", "histories"],
  "every schedule of the row loop, every sequence of products of different sizes in one process",
  "No test instantiates these functions.",
  [I + "types/eigen/multiply_assign.hpp", I + "types/blaze/multiply_assign.hpp", I + "types/function_matrix.hpp"],
  [("rows accumulate into a zeroed temporary that is swapped in after the loop", I + "types/eigen/multiply_assign.hpp")],
  [("temporary", "result under construction", I + "types/eigen/multiply_assign.hpp")],
  ["the vector after the call"])

prop("C07", "Independent callers in different threads never interfere",
  "Two or more application threads that each use their own (or share only constant) bases, observables, integrators, matrices and vectors at the same time obtain exactly the results each would have obtained alone. This covers time-integration steps, site occupation, Fermi jump, particle number, dispersion, expectation-value tables, conjugate bases, Liouvillian matrices (plain and normal-ordered, in both spaces), lists of non-vanishing expectation values, in-place products, reading of data lines and the algebra of terms (products, also in place and of a term with itself, commutators, anticommutators, sorting, printing), under every interleaving of the callers and of their OpenMP teams.",
  ["schedules", "histories"],
  "every interleaving of two to four caller threads, each with its own team, over mixed operations",
  "No test uses more than one caller thread; interference through hidden shared state needs two overlapping calls.",
  [I + "ode/rk4.hpp", R + "fermi_jump/1d.hpp", R + "fermi_jump/2d.hpp", R + "site_occupation.hpp", I + "types/eigen/multiply_assign.hpp"],
  [("operations take const objects and keep their working storage per call", I + "ode/rk4.hpp")],
  [("integrator work vectors", "Runge-Kutta stages of the call in progress", I + "ode/rk4.hpp")],
  ["results returned to each caller"])

prop("C08", "Results never depend on what the process computed before",
  "The result of an integration step, an observable, a table, a conjugate basis, a Liouvillian matrix, a list of expectation values, a commutator, product (also of a term with itself, in place), ordering or printed form of terms, or an in-place product with a matrix depends only on its arguments: it is the same as in a fresh process whatever sizes, element types, objects and copies were used before it, including earlier calls that failed for lack of memory. A copy of an observable or table gives the same results as the original, also after the original is gone, and repeated evaluation gives the same result.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of up to ten operations over objects of different sizes, with copies, destruction of originals and failed allocations in between, on any schedule",
  "Each test builds one object of one size per process section; hidden state carried between calls needs two objects of different sizes, or a copy, or a failed call in one process.",
  [I + "ode/rk4.hpp", R + "fermi_jump/1d.hpp", R + "fermi_jump/2d.hpp", R + "fermi_jump_no.hpp", R + "site_occupation.hpp"],
  [("no state outside the objects", I + "ode/rk4.hpp")],
  [("function-local statics", "constants and, where present, scratch storage", R + "fermi_jump/1d.hpp")],
  ["results of each operation in the history"])

prop("C09", "A failed allocation is reported, contained and harmless",
  "If memory runs out at any point of building a basis, conjugating it, building or evaluating an observable, table, Liouvillian matrix, list of expectation values or dispersion, forming products and commutators of terms, composing texts such as the description of the platform, or stepping the integrator, the operation reports std::bad_alloc. Its constant inputs are unchanged, nothing it allocated is leaked, no memory is corrupted, and repeating the operation once memory is available gives the normal result.",
  ["fault_sequences", "inputs"],
  "failure of any one or more allocations made outside parallel regions, by any operation",
  "No test makes an allocation fail.",
  [R + "basis.hpp", R + "expectation_value.hpp", R + "fermi_jump/1d.hpp", R + "site_occupation.hpp", I + "models/hubbard/dispersion.hpp", I + "algebra/commutator.hpp", I + "algebra/anticommutator.hpp", I + "ode/rk4.hpp", I + "string.hpp", I + "platform.hpp"],
  [("storage owned by standard containers, constructed before use", R + "basis.hpp")],
  [("heap blocks", "owned by the objects", R + "basis.hpp")],
  ["exception type", "live heap blocks", "inputs and retried result"])

prop("C10", "The kinetic-theory program writes the exact solution on every schedule",
  "The kinetic-theory program writes one row per time step: the time, and real and imaginary part of the occupation of site zero of the half-filled, non-interacting chain, which is the double sum over the chain of the half-filled two-operator expectation value times the analytic Bessel-function amplitudes. It starts at the filling factor one half with vanishing imaginary part, and is the same for every number of threads, team size delivered to each of its parallel regions, and interleaving.",
  ["schedules", "configurations"],
  "every schedule and every combination of team sizes of the three parallel regions",
  "No test runs the program; its accumulators are sized by one parallel region and used by another.",
  [S + "hubbard_real_1d_kinetic_theory.cpp", R + "expectation_value.hpp"],
  [("one accumulator per thread, registered under a critical section", S + "hubbard_real_1d_kinetic_theory.cpp")],
  [("results", "partial sums per thread", S + "hubbard_real_1d_kinetic_theory.cpp")],
  ["theory.txt"])

prop("C11", "Time-evolution programs write the correct trajectory on every schedule",
  "For any valid parameters, each time-evolution program writes, after its header comments, one row for time zero and one for every further multiple of the measurement interval up to the step that reaches the stop time, in order and each exactly once, whose values are the observable (site occupation, Fermi jump, or all coefficients) of the state obtained by fourth-order Runge-Kutta steps of the program's equations of motion from the initial unit vector. The rows are the same, up to rounding, for every number of threads, team size and interleaving. The momentum-space program likewise prints the particle number of the Fermi sea before and after its eight steps and writes its matrix file, and the trivial model writes time, coefficients and occupation of its 2001 states, whatever the schedule.",
  ["schedules", "inputs", "configurations"],
  "every schedule, and small lattices, couplings, fillings, step widths, stop times and measurement intervals (including intervals that do not divide the stop time)",
  "No test runs the programs; they are not even built without Blaze.",
  [S + "hubbard_momentum_1d_rk4.cpp", S + "hubbard_real_1d_rk4.cpp", S + "hubbard_real_1d_rk4_jump.cpp", S + "hubbard_real_1d_rk4_coefficients.cpp", S + "hubbard_real_1d_kinetic_rk4.cpp", S + "hubbard_real_1d_kinetic_rk4_coefficients.cpp", S + "hubbard_real_2d_rk4_jump.cpp", S + "hubbard_trivial.cpp", S + "include/common.hpp", I + "ode/rk4.hpp", R + "blaze_sparse.hpp"],
  [("measurement when the interval has passed, time advanced by the step size", S + "include/common.hpp")],
  [("t, last measurement, state vector", "progress of the simulation", S + "hubbard_real_1d_rk4.cpp")],
  ["rows of the output file"])

prop("C12", "A finished measurement survives a crash of the program",
  "Whenever a time-evolution program has finished a measurement and continues the integration, the complete row of that measurement is in the output file, so that it is still there if the process dies at any later instant. After a crash at any point, or an end because memory ran out, the output file is a prefix of the file an undisturbed run writes: complete header lines and rows in order, at most the last one cut off. Starting the program again after a crash writes the complete file.",
  ["crash_points", "fault_sequences"],
  "process crash at every write, between writes and inside a (torn) write, and at any integration step; short writes, interrupted system calls and failing allocations before the crash",
  "No test runs the programs, kills a process or looks at a partial output file.",
  [S + "hubbard_real_1d_rk4.cpp", S + "hubbard_real_1d_rk4_coefficients.cpp", S + "hubbard_real_1d_rk4_jump.cpp", S + "hubbard_real_1d_kinetic_rk4.cpp", S + "hubbard_real_2d_rk4_jump.cpp", S + "include/application.hpp"],
  [("flush after each row before the measurement is declared finished", S + "hubbard_real_1d_rk4.cpp")],
  [("output stream buffer", "rows not yet handed to the operating system", S + "include/application.hpp")],
  ["output file after the crash"])

prop("C13", "Successful exit means the result is complete",
  "If a program that writes a result file (dispersion, kinetic theory, the trivial model, and the time-evolution programs, including the momentum-space program's matrix file) or prints its results to standard output (both commutator programs, the momentum-space program) ends with exit status zero, the file or output holds the header and every row, line or element of an undisturbed run, unaltered. Under disk errors, a full disk, a failing open or a failing close of any of its files or of writing to its standard output, or when memory runs out, it may fail, but then it ends in bounded time with a non-zero status or by an uncaught-exception abort; short writes and interrupted system calls are absorbed.",
  ["fault_sequences", "crash_points"],
  "every placement of open failure, ENOSPC, EIO, short write, EINTR and close failure among the program's file operations; every allocation failing",
  "No test injects a disk fault or runs these programs.",
  [S + "hubbard_dispersion_1d.cpp", S + "hubbard_real_1d_kinetic_theory.cpp", S + "hubbard_trivial.cpp", S + "include/application.hpp",
   S + "hubbard_commutators_real_space.cpp", S + "hubbard_commutators_momentum_space.cpp", S + "hubbard_momentum_1d_rk4.cpp"],
  [("stream state checked before success is reported", S + "hubbard_dispersion_1d.cpp")],
  [("stream state", "whether every write reached the operating system", S + "include/application.hpp")],
  ["exit status and result file or standard output"])

prop("C14", "A response file reproduces its run, and a bad one never hangs",
  "Every undisturbed run started from command-line options leaves a response file with all of its parameters (given or default), and starting the same program with that response file instead reproduces the same measurement rows; options repeated on the command line take precedence. Starting with a response file that was cut off at any byte, for instance by a crash, does exactly what starting with the surviving options on the command line does (a run with these parameters, or an error). A response file that is missing or cannot be read is reported as an error (a non-zero exit status or an uncaught exception that names it), in bounded time; reading one never hangs and never crashes, and when memory runs out meanwhile the program fails instead of running with other parameters.",
  ["crash_points", "fault_sequences", "histories", "inputs"],
  "every parameter set; every crash point while the response file is written; missing and unreadable files; short reads and read errors; failing allocations",
  "No test touches the command-line or response-file code.",
  [S + "include/cli.hpp", S + "include/application.hpp"],
  [("all options written as --key=value lines and parsed back line by line", S + "include/cli.hpp")],
  [("response file", "durable copy of the parameters", S + "include/application.hpp")],
  ["second run's rows and exit status"])

prop("C15", "Reading data lines is lossless and always terminates",
  "Reading a stream line by line through the data-line reader yields, in order and unaltered, exactly the lines that are neither blank nor comments (blank, or starting with optional blanks and a hash), however the underlying source splits its data, including a last line without a newline. When the stream is exhausted, was never readable, or fails in the middle, or memory runs out, the reader returns in bounded time and the failure is reported, by the stream or an exception.",
  ["fault_sequences", "inputs"],
  "every content, every chunking of the source, end of file, read error and failing allocation at every byte",
  "No test reads through it; end of file and read errors need a faulty source.",
  [I + "io/line.hpp"],
  [("skip lines matched by the blank-or-comment pattern", I + "io/line.hpp")],
  [("input stream", "position and state", I + "io/line.hpp")],
  ["returned lines", "stream state"])

prop("C16", "Checkpoints are complete before they are announced",
  "Checkpoints written by one process, of whatever vector types, are numbered consecutively; reading one back gives exactly the vector that was stored. Whatever instant the process dies at, whatever disk error occurs and whenever memory runs out, a checkpoint whose info file records a time has a complete, readable vector file with the vector of that time, earlier checkpoints stay intact, and a checkpoint that could not be written or read completely is reported to the caller as a failure.",
  ["crash_points", "fault_sequences", "histories"],
  "crash at every write and between any two file operations, torn and short writes, full disk, I/O errors, failing allocations, over sequences of checkpoints",
  "No test writes a checkpoint.",
  [S + "include/checkpoint.hpp"],
  [("vector file written and closed before the info file is created", S + "include/checkpoint.hpp")],
  [("checkpoint number", "next checkpoint's name", S + "include/checkpoint.hpp")],
  ["files left behind, exceptions"])

prop("C17", "Trimming an output file for resume keeps exactly the asked-for rows",
  "Cleaning an output file to a given number of entries leaves a beginning of the original, ending at the end of a line, with exactly its first so-many rows and the comment and blank lines before them, byte for byte; asking for more rows than there are keeps them all and ends in bounded time. If the process dies at any point, the disk fails or memory runs out, the complete original data is still present, either in the file itself or in its backup.",
  ["crash_points", "fault_sequences", "inputs"],
  "every file content and entry count; crash at every file operation; full disk, I/O errors and short reads and writes; failing allocations",
  "No test calls it.",
  [S + "include/checkpoint.hpp", I + "io/line.hpp"],
  [("rename to a backup before the trimmed copy is written", S + "include/checkpoint.hpp")],
  [("backup file", "original data", S + "include/checkpoint.hpp")],
  ["file and backup after the call or crash"])

prop("C18", "Programs start and measure the same in every host environment",
  "The programs' measurement rows and exit status do not depend on the environment they run in: an unset or odd user name (of one line), a host name of any length up to the system limit, clock jumps, and any thread-count setting. The platform description never crashes and is always properly terminated text.",
  ["configurations", "fault_sequences"],
  "every combination of unset/empty/long environment values, host-name lengths and failures, clock jumps backwards and forwards, and thread settings",
  "Tests run in one ordinary environment and never call the platform description.",
  [I + "platform.hpp", S + "include/application.hpp", S + "include/logging.hpp", S + "include/application_timer.hpp"],
  [("environment read once for the header and log only", I + "platform.hpp")],
  [("host name buffer", "text shown in header and log", I + "platform.hpp")],
  ["exit status, rows, header lines"])

prop("C19", "Processes at work side by side in one directory do not disturb each other",
  "Programs that run at the same time with different output names (also in different directories, or names of which one begins with another), writers of checkpoints with different prefixes, and trimmers of different output files never touch each other's files. However their file operations and steps interleave, and wherever one of them is killed, meets disk errors or is started again, every other one ends as it ends alone and leaves the measurements, response file, checkpoints, trimmed file and backup it leaves alone, and a log of its own.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "every interleaving of the file operations of several processes, every moment of death or disk error of one of them, every set of different output names and prefixes",
  "The tests run one process at a time and start no program; two runs of a parameter sweep that share a file by accident only show it under a particular interleaving.",
  [S + "include/application.hpp", S + "include/checkpoint.hpp", S + "include/logging.hpp"],
  [("all file names are derived from the output name, the prefix or the path passed in", S + "include/application.hpp"),
   ("checkpoint names are prefix and number", S + "include/checkpoint.hpp"), ("backup name is the path with an extension", S + "include/checkpoint.hpp")],
  [("output, log, response and checkpoint paths", "the files a run owns", S + "include/application.hpp")],
  ["the files in the directory after all runs, exit statuses"])

NA = "pure function of its arguments"
prop("C20", "Operator algebra laws",
  "Conjugating an operator or a monomial twice is the identity, the conjugate of a product is the reversed product of the conjugates, and equality and ordering of operators and monomials are consistent with each other.",
  ["inputs"], "every operator and monomial", "The tests sample a few operators.",
  [I + "algebra/operator/operator.hpp", I + "algebra/monomial/monomial.hpp"],
  [("member-wise definition", I + "algebra/operator/operator.hpp")])
prop("C21", "Commutators equal AB minus BA",
  "The commutator and anticommutator of two terms, expressed through the fundamental anticommutation relations, equal the difference or sum of the two products for all monomials of any length.",
  ["inputs"], "every pair of terms", "The tests cover no commutator at all.",
  [I + "algebra/commutator.hpp", I + "algebra/anticommutator.hpp"],
  [("expansion into anticommutators with alternating sign", I + "algebra/commutator.hpp")])
prop("C22", "Lattice indexing is a bijection with symmetric periodic distances",
  "Site index to position and back is a bijection on every lattice, neighbour relations are symmetric, and lattice distances are the periodic distances, also for rectangular square lattices.",
  ["inputs", "configurations"], "every lattice size and spacing", "The tests use square 4x4-like sizes only.",
  [I + "lattices/periodic_chain.hpp", I + "lattices/periodic_square_lattice.hpp"],
  [("row-major site index", I + "lattices/periodic_square_lattice.hpp")])
prop("C23", "Excited Fermi sea obeys Pauli exclusion and yields exact expectation values",
  "Applying operators to the Fermi sea creates and annihilates particles consistently with the exclusion principle, and the list of non-vanishing expectation values holds exactly the pairs of basis elements with non-zero expectation value, with their values.",
  ["inputs"], "every basis, dispersion and Fermi energy", "The tests use one small chain.",
  [I + "models/hubbard_momentum_space/excited_fermi_sea.hpp", I + "models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"],
  [("sets of created and annihilated particles", I + "models/hubbard_momentum_space/excited_fermi_sea.hpp")])
prop("C24", "Liouvillian matrices are the commutators in the operator basis",
  "The sparse matrices of the kinetic and interaction Liouvillian equal the expansion of the commutator of the Hamiltonian with each basis element in the basis, in real and in momentum space.",
  ["inputs"], "every lattice, basis and coupling", "No test builds a matrix.",
  [R + "blaze_sparse.hpp", R + "blaze_sparse_no.hpp", I + "models/hubbard_momentum_space/blaze_sparse.hpp"],
  [("closed-form matrix elements", R + "blaze_sparse.hpp")])
prop("C25", "Ordering and simplifying terms preserves their meaning",
  "Normal-ordering a term with respect to operators, collecting terms and ordering Kronecker symbols keep the represented operator unchanged.",
  ["inputs"], "every term", "No test orders terms.",
  [I + "algebra/operator/order.hpp", I + "algebra/term/order.hpp", I + "symbolic/prefactor.hpp"],
  [("swap with sign and contraction", I + "algebra/operator/order.hpp")])
prop("C26", "Site iterators satisfy the random-access iterator laws",
  "Integer iterators over lattice sites behave like random-access iterators: increments, decrements, offsets and differences are mutually inverse and consistent with comparison.",
  ["inputs"], "every pair of positions and offset", "No test uses the arithmetic operators.",
  [I + "iterators/integer_iterator.hpp"],
  [("wrapped integer", I + "iterators/integer_iterator.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
