T = "TLA+ with TLC: %s"
def L(tech, note):
    return (T % tech, note)


EXH = "Specification: exhaustive in small bounds. Code: TLC-generated behaviours, random above the bounds; "
LEVELS = {
    "default": L("model checking and validation of recordings", EXH),
    "C01": L("model checking of the equation language; replay of TLC-generated models in the code, judged by the plan of the specification", EXH + "values compared to 1e-8 relative."),
    "C02": L("model checking of registration and of the implicit/explicit split; replay of generated models and terms", EXH + "six recorded or fixed findings, matched by input."),
    "C03": L("state machine of the solver; trace validation of recorded runs (aspect: calculations), replay of models with derived fields", EXH + "instants recognised by field contents."),
    "C04": L("the Euler step as a plan over registers, model-checked for simultaneity; executed by the harness and compared with the code", EXH + "1e-8 relative."),
    "C05": L("the RK4 step as a plan over registers, model-checked; executed by the harness and compared with the code; trace validation of stage times", EXH + "1e-8 relative."),
    "C06": L("state machine of the solver; trace validation of recorded runs (aspect: times)", EXH + "starts up to step 65533, four schemes."),
    "C07": L("state machine of the solver; trace validation of recorded runs (aspects: order, times and instants of notifications)", EXH + "up to seven monitors and six callbacks."),
    "C08": L("plans with sources and modifiers, model-checked; executed by the harness and compared with the code", EXH + "1e-8 relative."),
    "C09": L("state machine of the database with several handles; replay of behaviours, each state judged by a trace specification", EXH + "up to 22 operations."),
    "C10": L("state machine of the database with position tables; replay and trace validation", EXH + "domains up to 37x41 and 3D."),
    "C11": L("views as functions of the database state; output of the real program validated by a trace specification", EXH + "up to 26 simulations per database."),
    "C12": L("directory of files as a state machine; replay of behaviours and trace validation of contents", EXH + "sides up to 121."),
    "C13": L("model of positions and numbers; complete tables of the code validated by a trace specification", "All shapes with sides up to 4 (quick) or 6 (thorough), sampled shapes with sides up to 250."),
    "C14": L("model of layout, frequencies and conjugates; complete tables of the code validated by a trace specification", "All shapes with sides up to 4 (quick) or 6 (thorough), sampled shapes with sides up to 250."),
    "C15": L("model of independent amplitudes; complete iterations of the code validated by a trace specification", "All shapes with sides up to 4 (quick) or 6 (thorough), sampled shapes with sides up to 250."),
    "C16": L("model of equivalent planes; complete answers of the code validated by a trace specification", "All planes in a box of indices."),
    "C17": L("model of geometry on a periodic grid; node sets of the code validated by a trace specification", EXH + "one recorded finding (BoxKernel)."),
    "C18": L("model of the zero mode and of the multiplier; replay of models and of integer histories", EXH + "mean to rounding."),
    "C19": L("crash model refining the database; every file operation of the recorded scenarios interrupted, and the file judged by a trace specification", "Every interruption point of every scenario: process end before, in the middle of and after an operation, and failing operations."),
    "C20": L("exact tensors over integers, model-checked symmetries; replay of generated requests", EXH + "one recorded finding."),
    "C21": L("life cycle and dimer equations as a state machine; replay of life cycles and trace validation", EXH + "forces from the plan of the specification."),
    "C22": L("exact operators on grids with Gaussian-integer transforms; replay of generated models", EXH + "other sides against a naive transform."),
    "C23": L("the implicit step as a relation between states; the defect of the code's step measured with the plan of the specification", EXH + "steps where the nonlinear solver gives up are not judged."),
    "C24": L("integer model of cells, modes and energies; replay of generated quantities", EXH + "minima judged by recomputed energies."),
    "C25": L("relation between images before and after an operation; trace validation of histories", EXH + "one recorded finding."),
    "C26": L("tables and pictures as functions; the pictures of the real program read back and compared", EXH + "curves to 0.03, colours to 0.4 of a unit on planes with sides up to nine; coarser on larger planes."),
    "C27": L("state machine of registration; replay of histories with all lookups, and enumeration of requests that do or do not fit", EXH),
}
