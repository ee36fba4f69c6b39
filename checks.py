"""Build and run description of every check (see vrun.py)."""

WARN = "-w"
VARIANTS = {
    # gcc, the compiler the project is built with here; every report is fatal
    "asan": {"cxx": "g++",
             "flags": "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all "
                      "-D_GLIBCXX_ASSERTIONS -ffunction-sections -fdata-sections " + WARN,
             "link": "-fsanitize=address,undefined -Wl,--gc-sections"},
    "tsan": {"cxx": "g++",
             "flags": "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=thread -ffunction-sections -fdata-sections " + WARN,
             "link": "-fsanitize=thread -Wl,--gc-sections"},
    "plain": {"cxx": "g++",
              "flags": "-std=c++17 -O1 -g1 -ffunction-sections -fdata-sections " + WARN,
              "link": "-Wl,--gc-sections"},
}


def COMMON_INC(verif, repo, build):
    return "-I%s/shim -isystem /usr/include/eigen3 -isystem /usr/include/jsoncpp" % verif


LIBS = {
    "common": {"dir": "trajopt_common", "inc": ["trajopt_common/include"],
               "exclude": [r"src/collision_types\.cpp", r"src/collision_utils\.cpp"]},
    # the part of trajopt_sco the project's offline build has: BPMPD as the only solver
    "sco": {"dir": "trajopt_sco", "inc": ["trajopt_sco/include", "trajopt_common/include"],
            "exclude": [r"src/bpmpd_caller\.cpp", r"src/optimizers\.cpp", r"src/osqp_interface\.cpp", r"src/qpoases_interface\.cpp",
                        r"src/gurobi_interface\.cpp"],
            "flags": "-fopenmp -DHAVE_BPMPD=ON -DBPMPD_CALLER='\"exec $$TRAJOPT_VERIF_CALLER\"'",
            "link": "-fopenmp -ljsoncpp -ldl"},
    # the whole of trajopt_sco, with OSQP and qpOASES replaced by stand-ins that keep their interface
    "scofull": {"dir": "trajopt_sco", "inc": ["trajopt_sco/include", "trajopt_common/include"],
                "extra": ["src/optimizers.cpp", "src/osqp_interface.cpp", "src/qpoases_interface.cpp", "src/bpmpd_interface.cpp"],
                "exclude": [r"src/bpmpd_caller\.cpp", r"src/gurobi_interface\.cpp"],
                "flags": "-fopenmp -I{VERIF}/shim/solvers -DHAVE_BPMPD=ON -DHAVE_OSQP=ON -DHAVE_QPOASES=ON "
                         "-DBPMPD_CALLER='\"exec $$TRAJOPT_VERIF_CALLER\"'",
                "link": "-fopenmp -ljsoncpp -ldl"},
}
LIBS["ifopt"] = {"dir": "trajopt_ifopt", "inc": ["trajopt_ifopt/include", "trajopt_common/include"],
                 "exclude": [r"src/constraints/cartesian.*", r"src/constraints/inverse.*", r"src/constraints/collision/.*", r"src/utils/trajopt_utils\.cpp"],
                 "link": "-lconsole_bridge"}
# with the cartesian, inverse kinematics and collision constraints, on a stand-in for tesseract
LIBS["ifoptfull"] = {"dir": "trajopt_ifopt", "inc": ["trajopt_ifopt/include", "trajopt_common/include"], "exclude": [], "link": "-lconsole_bridge"}
LIBS["commonfull"] = {"dir": "trajopt_common", "inc": ["trajopt_common/include"], "exclude": []}
LIBS["sqp"] = {"dir": "trajopt_optimizers/trajopt_sqp", "inc": ["trajopt_optimizers/trajopt_sqp/include", "trajopt_ifopt/include", "trajopt_common/include"],
               "exclude": [r"src/osqp_eigen_solver\.cpp", r"src/callbacks/.*"], "link": "-lconsole_bridge"}
# with the OSQP adapter, on a stand-in for osqp-eigen
LIBS["sqpfull"] = dict(LIBS["sqp"], exclude=[r"src/callbacks/.*"], flags="-I{VERIF}/shim/solvers -I{VERIF}/shim")
LIBS["sqpall"] = dict(LIBS["sqpfull"], exclude=[])
LIBS["vhacd"] = {"dir": "trajopt_ext/vhacd", "glob": "src/*.cpp", "inc": ["trajopt_ext/vhacd/include", "trajopt_common/include"], "exclude": [],
                 "flags": "-fopenmp -isystem /usr/include/bullet", "link": "-fopenmp"}
LIBS["vhacdtsan"] = dict(LIBS["vhacd"], link="")
LIBS["commoncfg"] = dict(LIBS["common"], extra=["src/config.cpp"], link="-lboost_program_options")
LIBS["trajoptjson"] = {"dir": "trajopt", "glob": "src/json_marshal.cpp", "inc": ["trajopt/include", "trajopt_common/include"], "exclude": [], "link": "-ljsoncpp"}
LIBS["trajoptterms"] = {"dir": "trajopt", "glob": "src/*.cpp", "inc": ["trajopt/include", "trajopt_sco/include", "trajopt_common/include"],
                        "exclude": [r"src/(json_marshal|problem_description|collision_terms|kinematic_terms|plot_callback|file_write_callback)\.cpp"],
                        "link": "-ljsoncpp"}
LIBS["trajoptkin"] = {"dir": "trajopt", "glob": "src/*.cpp", "inc": ["trajopt/include", "trajopt_sco/include", "trajopt_common/include"],
                      "exclude": [r"src/(json_marshal|problem_description|collision_terms|trajectory_costs|plot_callback|file_write_callback)\.cpp"],
                      "link": "-ljsoncpp"}
LIBS["trajoptcol"] = {"dir": "trajopt", "glob": "src/*.cpp", "inc": ["trajopt/include", "trajopt_sco/include", "trajopt_common/include"],
                      "exclude": [r"src/(json_marshal|problem_description|kinematic_terms|trajectory_costs|plot_callback|file_write_callback)\.cpp"],
                      "link": "-ljsoncpp"}
# everything but the file writer
LIBS["trajoptfull"] = {"dir": "trajopt", "glob": "src/*.cpp", "inc": ["trajopt/include", "trajopt_sco/include", "trajopt_common/include"],
                       "exclude": [r"src/file_write_callback\.cpp"], "link": "-ljsoncpp -lconsole_bridge", "flags": "-I{VERIF}/shim/solvers"}
LIBS["trajoptall"] = dict(LIBS["trajoptfull"], exclude=[])
# as a Release build has it: without assertions
LIBS["trajoptkinrelease"] = dict(LIBS["trajoptkin"], flags="-DNDEBUG")
# the same without the OpenMP runtime (see harness/gomp_shim.cpp)
LIBS["scotsan"] = dict(LIBS["scofull"], link="-ljsoncpp -ldl")

CHECKS = {
    "C01": {
        "harnesses": [{"name": "c01_cache", "src": ["c01_cache.cpp"], "libs": ["common"]}],
        "require": {"hit": 1000, "acquire_evict": 1000, "acquire_grow": 100, "get_hit": 1000, "erase": 1000, "drained": 100},
        "rule": "random operation histories (get, getOrAcquire with and without put, re-association of held objects, erase) over "
                "few keys and pools of 1..5 objects, five key/hash/equality kinds; a case is distinct by its final capacity, "
                "recency order and whether it evicted or grew",
        "assumptions": ["single-threaded use, as the class documents"],
    },
    "C02": {
        "harnesses": [{"name": "c02_expr", "src": ["c02_expr.cpp"], "libs": ["sco", "common"]}],
        "require": {"operations": 10000, "evaluations": 10000},
        "rule": "random programs of 3..14 expression operations (in-place, out-of-place, moved-from operands, operators; repeated "
                "variables, zero coefficients, up to 6 variables), every intermediate result compared with an exact polynomial "
                "and evaluated at random points; a case is distinct by its operation sequence",
    },
    "C03": {
        "harnesses": [{"name": "c03_convert", "src": ["c03_convert.cpp"], "libs": ["sco", "common"]}],
        "require": {"converted": 1000, "csc": 1000, "triplets": 1000, "refused": 100, "simplified": 100},
        "rule": "random affine/quadratic expressions, triplet lists and sparse matrices (any density, uncompressed, duplicates, "
                "permuted), converted and rebuilt; a case is distinct by its dimensions and leading values",
    },
    "C04": {
        "harnesses": [{"name": "c04_convexify", "src": ["c04_convexify.cpp"], "libs": ["sco", "common"]}],
        "require": {"model_points": 5000, "aux_minimised": 2000, "explicit_removal": 500, "derivatives": 500},
        "rule": "random smooth vector functions (affine, quadratic, trigonometric) of a scrambled subset of the problem variables, "
                "weights including zero, every penalty/constraint type, analytic and numeric derivatives; the model is evaluated at "
                "the expansion point and at points around it; distinct by sizes, kinds, weights and expansion point",
        "assumptions": ["non-negative weights; functions with derivatives of moderate size"],
    },
    "C06": {
        "harnesses": [{"name": "c06_model", "src": ["c06_model.cpp"], "libs": ["sco", "common"], "bpmpd": True},
                      {"name": "c06_record", "src": ["c06_record.cpp"], "libs": ["sco", "common"], "bpmpd": True,
                       "env": {"TRAJOPT_VERIF_CALLER": "{BUILD}/bpmpd/fake_bpmpd"}}],
        "require": {"optimal": 1000, "infeasible": 100, "history": 100, "variables_removed": 30, "rows_removed": 100, "large": 5, "sent": 2000, "sent_big": 10},
        "rule": "random convex problems and histories of changes to them",
    },
    "C05": {
        "harnesses": [{"name": "c05_optprob", "src": ["c05_optprob.cpp"], "libs": ["sco", "common"], "bpmpd": True}],
        "require": {"bookkeeping": 5000, "repaired": 2000, "central": 200, "projected": 300, "refused": 50},
        "rule": "random histories of variable creation, bound changes, costs and constraints; random boxes (infinite, degenerate, "
                "narrower than the margin) and points; projections onto random polytopes; distinct by operations, sizes and leading "
                "values",
    },
    "C18": {
        "harnesses": [{"name": "c18_backends", "src": ["c18_backends.cpp", "fake_osqp.cpp", "fake_qpoases.cpp"], "libs": ["scofull", "common"],
                       "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim"}],
        "require": {"optimal": 3000, "osqp_update": 300, "osqp_warm_start": 100, "qpoases_hotstart": 300, "status_injected": 100,
                    "error_injected": 50, "setup_error_injected": 50, "update_error_injected": 50, "hotstart_failure_injected": 50,
                    "init_failure_injected": 50, "same_size": 500, "infeasible": 100},
        "rule": "random convex problems and histories of changes to them, every configuration of workspace update and warm start, "
                "every reported outcome injected; distinct by configuration, operations and data",
        "assumptions": ["OSQP 1.0 and qpOASES 3.2 behave as their interface documents; neither is installed here"],
    },
    "C07": {
        "harnesses": [{"name": "c07_full", "src": ["c07_solver.cpp", "fake_osqp.cpp", "fake_qpoases.cpp"], "libs": ["scofull", "common"],
                       "flags": "-DFULL -I{VERIF}/shim/solvers -I{VERIF}/shim", "shards": 4},
                      {"name": "c07_bpmpd", "src": ["c07_solver.cpp"], "libs": ["sco", "common"], "shards": 4}],
        "require": {"named": 2000, "refused": 2000, "created": 500, "unavailable": 500},
        "rule": "every solver name, value and number, malformed names, every environment setting against every request, in two builds "
                "(one solver; three solvers, two of them stand-ins); distinct by name, route and environment",
    },
    "C08": {
        "harnesses": [{"name": "c08_sqp", "src": ["c08_sqp.cpp", "fake_osqp.cpp", "fake_qpoases.cpp"], "libs": ["scofull", "common"],
                       "flags": "-fopenmp -I{VERIF}/shim/solvers -I{VERIF}/shim"}],
        "require": {"run_in_step": 800, "accepted_step": 1000, "rejected_step": 300, "solver_failure": 200, "penalty_increase": 100,
                    "iteration_limit": 100, "penalty_limit": 50, "time_limit_run": 50, "log_checked": 50, "multi_threaded": 200,
                    "convex_optimum": 100, "status_OPT_CONVERGED": 100, "status_OPT_FAILED": 20, "verbose_run": 50},
        "rule": "random problems (1..4 variables, 1..3 costs, 0..3 constraints of every kind, linear constraints, infinite bounds), random "
                "parameters, injected solver failures, one or more runs, one or several threads; distinct by sizes, kinds and start",
        "assumptions": ["a decision closer to a tie than 2e-7 (relative) is not judged further"],
    },
    "C09": {
        "harnesses": [{"name": "c09_joint", "src": ["c09_joint.cpp"], "libs": ["ifopt", "commonfull"]}],
        "require": {"trajectory_value": 3000, "polynomial": 300, "position_value": 1000, "range_split": 200, "gradient": 2000, "nonzero_cost": 1000, "refused": 300},
        "rule": "random variable sets (1..14 nodes, 1..7 joints, other variables in between, subsets of the nodes), targets, bounds of every kind, "
                "coefficients given for none, one or every joint or malformed; costs over random (nonlinear) constraint sets; distinct by sizes and values",
    },
    "C10": {
        "harnesses": [{"name": "c10_bounds", "src": ["c10_bounds.cpp"], "libs": ["ifopt", "commonfull"]}],
        "require": {"classified": 20000, "measured": 10000, "interpolated": 2000, "differentiated": 5000},
        "rule": "random limits (infinite, the 1e20 threshold and its neighbours, equal within and beyond 1e-8), points on, next to and off the limits, "
                "interpolations of 2..200 steps, random smooth functions differentiated with several step sizes; distinct by values",
    },
    "C11": {
        "harnesses": [{"name": "c11_problem", "src": ["c11_problem.cpp"], "libs": ["ifopt", "commonfull"]}],
        "require": {"layout": 5000, "variable": 1000, "summed": 500, "stacked": 1000, "several_costs": 2000, "restored": 300},
        "rule": "random variable sets (0..8 nodes), composites (stacked, summed, nested) and problems (0..3 constraints, 0..3 costs) under random "
                "histories of new points, saved and restored iterates; distinct by sizes, operations and values",
    },
    "C12": {
        "harnesses": [{"name": "c12_exprs", "src": ["c12_exprs.cpp"], "libs": ["sqp", "ifopt", "commonfull"]}],
        "require": {"evaluated": 20000, "squared": 5000, "without_hessian": 1000},
        "rule": "random affine and quadratic models (1..6 rows, 1..7 variables, any density, explicit zeros, uncompressed), one object reused for "
                "several sizes, evaluated at, around and away from the expansion point; distinct by sizes and values",
    },
    "C13": {
        "harnesses": [{"name": "c13_qp", "src": ["c13_qp.cpp"], "libs": ["sqp", "ifopt", "commonfull"]}],
        "require": {"modelled": 5000, "slacks": 3000, "evaluated": 10000, "exact": 10000, "boxed": 5000, "setup_again": 200, "refused": 500},
        "rule": "random problems (1..10 variables, 0..4 costs of every kind, 0..4 constraints of every kind, fixed or dynamic numbers of rows, "
                "coefficients, infinite limits) in both formulations under random histories of new points, boxes, penalties and convexifications; "
                "distinct by sizes, operations and start",
        "assumptions": ["non-negative coefficients; derivatives below 1e-7 may be treated as zero, as the sources say"],
    },
    "C14": {
        "harnesses": [{"name": "c14_sqpsolver", "src": ["c14_sqpsolver.cpp"], "libs": ["sqp", "ifopt", "commonfull"]}],
        "require": {"run_in_step": 20000, "accepted_step": 20000, "rejected_step": 20000, "penalty_increase": 5000, "stopped": 1000, "failed_too_often": 1000,
                    "updated_in_place": 5000, "rebuilt": 5000, "update_refused": 1000, "tiny_box": 500, "step": 10000, "real_run": 2000, "verbose": 200,
                    "status_SQP_CONVERGED": 2000, "status_SQP_FAILED": 500, "status_SQP_STOPPED_BY_CALLBACK": 500, "status_SQP_ITERATION_LIMIT": 500,
                    "status_SQP_TIME_LIMIT": 200, "status_SQP_PENALTY_ITERATION_LIMIT": 500, "convex_optimum": 1000, "parameters": 2000, "best_model_compared": 50000},
        "rule": "random merit landscapes (exact and convex values of every point), parameters, injected solver failures, refused updates, changing "
                "sizes, callbacks that stop; runs on random real problems; the solver's pieces in random order; distinct by landscape, parameters, "
                "outcome and start",
    },
    "C15": {
        "harnesses": [{"name": "c15_json", "src": ["c15_json.cpp"], "libs": ["trajoptjson", "common"]}],
        "require": {"read": 50000, "refused": 20000, "array": 20000, "children_read": 10000, "children_refused": 500},
        "rule": "random JSON values of every type (limits of the integers, reals, texts with special characters, nested lists and objects, wrong types, "
                "missing and superfluous members), built or parsed from text; distinct by their text",
    },
    "C16": {
        "harnesses": [{"name": "c16_common", "src": ["c16_common.cpp"], "libs": ["commoncfg"], "flags": "-pthread"}],
        "require": {"blocks": 50000, "vectors": 20000, "interpolated": 20000, "twisted": 20000, "texts": 10000, "options_read": 1000, "options_refused": 100,
                    "log_level": 40, "clock": 30},
        "rule": "random arrays, slices, sample points (on, between and beyond the knots, repeated knots), poses and twists, command lines, texts; distinct by values",
    },
    "C17": {
        "harnesses": [{"name": "c17_vhacd", "src": ["c17_vhacd.cpp"], "libs": ["vhacd"], "shards": 6},
                      {"name": "c17_async", "src": ["c17_async.cpp", "gomp_shim.cpp"], "libs": ["vhacdtsan"], "shards": 2, "case_timeout": 40},
                      {"name": "c17_races", "src": ["c17_async.cpp", "gomp_shim.cpp"], "libs": ["vhacdtsan"], "variant": "tsan", "shards": 4, "case_timeout": 60}],
        "require": {"decomposed": 25, "hull": 32, "covered": 600, "cancelled": 2, "repeated": 4, "released": 5, "convex_solid": 4, "incremental_hull": 2500, "hull_of_points": 2000, "voxelized": 120, "ray_hit": 12, "async_compared": 20, "restarted": 5, "released_running": 2, "async_cancelled": 10, "async_cleaned": 8, "cancelled_in_callback": 2, "cancelled_by_thread": 3, "async_region": 100, "abandoned": 12},
        "rule": "solids made of grid cells (boxes, L, U, branched, with tunnels and touching edges), stretched, turned and moved, over random parameters; distinct by mesh and parameters",
    },
    "C19": {
        "harnesses": [{"name": "c19_osqpeigen", "src": ["c19_osqpeigen.cpp", "fake_osqp.cpp"], "libs": ["sqpfull", "ifopt", "commonfull"],
                       "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim"}],
        "require": {"operation": 20000, "solved_again": 2000, "one_side_live": 500, "one_side_before": 500, "setup_refused": 50, "unsolved": 500, "misfit": 100,
                    "cleared": 500, "warm_start": 300, "slack_needed": 300, "slack_idle": 300, "run": 100, "run_solves": 1000, "run_failures": 30, "run_resized": 30},
        "rule": "random call orders on the adapter (sizes, patterns, one-sided limits, refusals, clearing, every injected outcome), warm starts of random "
                "problems, whole solver runs; distinct by operations and data",
        "assumptions": ["osqp-eigen 0.10 and OSQP 1.0 behave as their interface documents (vectors are borrowed, a new pattern means a new setup); neither is installed here"],
    },
    "C20": {
        "harnesses": [{"name": "c20_threads", "src": ["c20_threads.cpp", "gomp_shim.cpp", "fake_osqp.cpp", "fake_qpoases.cpp"], "libs": ["scotsan", "common"],
                       "variant": "tsan", "bpmpd": True, "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim", "shards": 4}],
        "require": {"built_together": 600, "parallel_region": 5000, "new_schedule": 2000, "parallel_compared": 500, "parallel_run": 200, "undisturbed": 400},
        "rule": "random problems and models of every solver kind, 2..8 threads, seeded delays at every hand-out of work and inside the "
                "user's functions; a schedule is distinct by which thread took which item in which order; a case by sizes and start",
        "assumptions": ["the OpenMP runtime is replaced by a stand-in on std::thread (it only promises what OpenMP promises)"],
    },
    "C21": {
        "harnesses": [{"name": "c21_collision", "src": ["c21_collision.cpp"], "libs": ["ifoptfull", "commonfull"]}],
        "require": {"evaluated": 10000, "rows": 50000, "violated_rows": 20000, "numeric": 3000, "from_cache": 1500, "worst_kept": 2500, "several_contacts": 10000,
                    "at_fixed_end": 5000, "interpolated": 1500, "moved_others": 800, "no_contact": 3000, "edge": 400, "refused": 3000, "bounds_set": 400, "moved_at_rest": 30},
        "rule": "random manipulators (1..4 joints, gantries and revolute), spheres in shapes and subshapes, fixed and moving surroundings, margins and "
                "coefficients by pair, one to four constraints sharing evaluators, over histories of new and revisited states; distinct by set-up and error",
        "assumptions": ["contact managers and kinematics of tesseract behave as their interface documents; tesseract is not installed here"],
    },
    "C22": {
        "harnesses": [{"name": "c22_jointterms", "src": ["c22_jointterms.cpp"], "libs": ["trajoptterms", "sco", "common"]}],
        "require": {"costs": 1500, "constraints": 1500, "too_short": 300, "arrays": 1000, "subsets": 1000},
        "rule": "random joint terms (position, velocity, acceleration, jerk; cost or constraint; equality or tolerance band) over any "
                "step range, joint count, weights with zeros, targets and tolerances, values and convexifications compared with "
                "written-out finite differences at several points; distinct by kind, range, joint count and weight",
    },
    "C23": {
        "harnesses": [{"name": "c23_cartesian", "src": ["c23_cartesian.cpp"], "libs": ["ifoptfull", "commonfull"]},
                      {"name": "c23_kinterms", "src": ["c23_kinterms.cpp"], "libs": ["trajoptkin", "sco", "commonfull"]},
                      {"name": "c23_release", "src": ["c23_kinterms.cpp"], "libs": ["trajoptkinrelease", "sco", "commonfull"], "shards": 4}],
        "require": {"pose_value": 10000, "toleranced": 1000, "plotted": 1000, "velocity_value": 2000, "joint_velocity_value": 3000, "time_value": 500,
                    "singularity_value": 1000, "singularity_derivative": 1000, "position_value": 5000, "line_value": 5000, "ik_value": 2000, "derivatives": 20000, "range_split": 300, "both_active": 200,
                    "source_active": 300, "target_active": 300, "on_line": 300, "before_line": 300, "behind_line": 300, "some_indices": 500,
                    "line_bounds": 300, "trajectory": 500, "refused": 1000},
        "rule": "random manipulators (1..5 joints), frames, offsets, coefficients with zeros, bounds of every kind, lines, subsets of the six "
                "components, variables in between, two constraints used in turns; distinct by joints and start",
        "assumptions": ["kinematics of tesseract behave as their interface documents; tesseract is not installed here"],
    },
    "C24": {
        "harnesses": [{"name": "c24_collisionterms", "src": ["c24_collisionterms.cpp"], "libs": ["trajoptcol", "sco", "commonfull"]}],
        "require": {"evaluated": 10000, "rows": 10000, "violated_rows": 3000, "costs": 3000, "constraints": 3000, "evaluators": 2000, "from_cache": 2000,
                    "at_fixed_end": 300, "interpolated": 1000, "plotted": 1000, "moved_others": 300, "refused": 10000},
        "rule": "random manipulators (1..4 joints, half of them prismatic) among spheres, margins and coefficients per pair with zeros, buffers, "
                "both ends free or one fixed, motions of length 0 to 1, costs, constraints and evaluators asked in turns at new and at former "
                "points; distinct by error of the first contact",
        "assumptions": ["contact managers and kinematics of tesseract behave as their interfaces document; tesseract is not installed here"],
    },
    "C25": {
        "harnesses": [{"name": "c25_problem", "src": ["c25_problem.cpp", "fake_osqp.cpp", "fake_qpoases.cpp"], "libs": ["trajoptfull", "scofull", "commonfull"],
                       "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim", "link": "-lconsole_bridge"}],
        "require": {"variables": 50000, "values": 40000, "fixed_variables": 10000, "projections": 5000, "faults": 2000, "parameters": 500, "optimised": 80,
                    "kept_fixed": 100, "constructed_twice": 400, "start_0": 1000, "start_1": 1000, "start_2": 1000,
                    "cost_cart_pose": 300, "cost_dynamic_cart_pose": 200, "cost_cart_vel": 1000, "cost_collision1": 1000, "cost_collision2": 300,
                    "cost_collision3": 300, "cost_collision4": 300, "cost_joint_jerk-eq": 200, "cost_joint_vel-time-eq": 100, "cost_total_time": 200,
                    "cost_user": 300, "cost_singularity": 300, "constraint_cart_pose": 300, "constraint_dynamic_cart_pose": 200,
                    "constraint_cart_vel": 1000, "constraint_collision1": 1000, "constraint_collision2": 300, "constraint_collision3": 300,
                    "constraint_collision4": 300, "constraint_joint_jerk-eq": 200, "constraint_joint_vel-time-eq": 1000, "constraint_total_time": 500,
                    "constraint_user": 300, "constraint_singularity": 300},
        "rule": "random descriptions (1..6 steps, 1..4 joints, with and without time, every start, fixed steps and joints, up to three costs and "
                "constraints of twelve kinds with every optional parameter given or left out), as JSON and as structures, 60 kinds of fault, "
                "and small ones optimised; distinct by description",
        "assumptions": ["contact managers, kinematics and state solvers of tesseract, OSQP and qpOASES behave as their interfaces document; none is installed here"],
    },
    "C26": {
        "harnesses": [{"name": "c26_callbacks", "src": ["c26_callbacks.cpp", "fake_osqp.cpp", "fake_qpoases.cpp"], "libs": ["trajoptall", "scofull", "commonfull"],
                       "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim", "link": "-lconsole_bridge"},
                      {"name": "c26_sqpcallbacks", "src": ["c26_sqpcallbacks.cpp", "fake_osqp.cpp"], "libs": ["sqpall", "ifoptfull", "commonfull"],
                       "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim"}],
        "require": {"shown": 1000, "shown_with_time": 400, "shown_without_problem": 300, "states_shown": 10000, "poses_shown": 2000, "contacts_shown": 1000,
                    "written": 2000, "written_with_time": 500, "rows_written": 10000, "poses_written": 20000, "terms_written": 20000, "optimised": 50,
                    "iterations_recorded": 200, "call_joints": 3000, "call_poses": 3000, "call_clear": 3000, "call_wait": 3000, "trajectories_shown": 3000,
                    "moving_targets": 2000, "resting_targets": 2000, "sqp_runs": 150, "sqp_iterations": 1000},
        "rule": "random problems (with and without time, terms of every kind, other joints in the environment) shown and written at random iterates "
                "and optimised with and without callbacks; random sets of trajopt_sqp callbacks at random values and in whole runs; distinct by iterate",
        "assumptions": ["visualization and kinematics of tesseract behave as their interfaces document; tesseract is not installed here"],
    },
    "C27": {
        "harnesses": [{"name": "c27_settings", "src": ["c27_settings.cpp"], "libs": ["commonfull"], "link": "-lyaml-cpp"},
                      {"name": "c27_threads", "src": ["c27_threads.cpp"], "libs": ["commonfull"], "variant": "tsan", "shards": 2}],
        "require": {"coefficients": 5000, "equal": 5000, "different": 3000, "made": 1000, "yaml_node": 500, "yaml_text": 500, "yaml_read": 1500,
                    "buffer_by_name": 400, "buffer_by_alias": 400, "margins_scaled": 200, "yaml_refused": 1500, "archived": 2000, "maxima": 20000,
                    "nothing_refused": 2000, "cleared": 2000, "read_together": 10000},
        "rule": "random histories of settings and copies over names that order and quote awkwardly, random settings as nodes, texts and four kinds of "
                "archive, hand-written YAML in any order with entries left out, faults; random sets of contact errors of every type; 2..8 threads; "
                "distinct by values",
        "assumptions": ["tesseract's own settings are stored by stand-ins; yaml-cpp and cereal are the installed ones"],
    },
    "C28": {
        "harnesses": [{"name": "c28_trajopt", "src": ["c28_trajopt.cpp", "gomp_shim.cpp", "fake_osqp.cpp", "fake_qpoases.cpp"],
                       "libs": ["trajoptfull", "scotsan", "commonfull"], "variant": "tsan",
                       "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim", "link": "-lconsole_bridge", "shards": 8},
                      {"name": "c28_ifopt", "src": ["c28_ifopt.cpp", "gomp_shim.cpp", "fake_osqp.cpp"], "libs": ["sqpall", "ifoptfull", "commonfull"], "variant": "tsan",
                       "flags": "-I{VERIF}/shim/solvers -I{VERIF}/shim", "link": "-lconsole_bridge", "shards": 8}],
        "require": {"compared": 500, "optimised_together": 250, "same_environment": 400, "parallel_compared": 1000, "parallel_region": 4000, "new_schedule": 300,
                    "sqp_compared": 700, "solved_together": 400, "same_manipulator": 700, "clock_read": 500},
        "rule": "random problems of every kind of term (trajopt: as JSON; trajopt_ifopt: poses, lines, inverse kinematics, joints, collisions) in 2..5 threads with "
                "seeded delays, several on one environment; the multi-threaded optimizer on such problems; distinct by problems, a schedule by which "
                "thread took which item",
        "assumptions": ["kinematics, environments and contact managers of tesseract may be used from several threads as long as nobody changes them", "OSQP and qpOASES instances are independent"],
    },
}
