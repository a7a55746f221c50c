ENUM = "bounded exhaustive enumeration of configurations on the real code, compared "
MODEL = "compared with an independent model of the time loop replayed against each run"
CHECKS = {
    "C01": (ENUM + "with the required invariants", "model_checking",
            "every arrangement within the stated bounds is built and its matrices examined; nothing is sampled"),
    "C02": (ENUM + "with the group-transformed result", "model_checking",
            "all 48 signed permutations and generic rotations over all enumerated arrangements"),
    "C03": (ENUM + "with the renumbered result", "model_checking",
            "all permutations and bead swaps of all enumerated arrangements"),
    "C04": (ENUM + "with the scaled or superposed result", "model_checking",
            "all listed scale factors over all enumerated arrangements and input forms"),
    "C05": (ENUM + "with an independent multipole reference", "model_checking",
            "reference built from closed-form tensor derivatives, independent of the code"),
    "C06": (ENUM + "with an independent assembly from the tabulated scalars", "model_checking",
            "every table point, midpoint and limit of every tabulated ratio, and all enumerated arrangements"),
    "C07": (ENUM + "with the same beads entered as spheres", "model_checking",
            "all enumerated arrangements with dumbbells, free and periodic"),
    "C08": (ENUM + "with the resistance relation and with every other input form", "model_checking",
            "every form and number of prescribed-motion particles over all enumerated arrangements"),
    "C09": ("exhaustive enumeration of recomputation schedules in complete real runs, " + MODEL,
            "model_checking", "every schedule within the bounds is run; far field wrong in any frame changes the record"),
    "C10": ("exhaustive enumeration of small complete runs of the real program, " + MODEL,
            "model_checking", "the model's predicted record is compared with the saved record of every run"),
    "C11": ("exhaustive enumeration of small complete runs of the real program, " + MODEL,
            "model_checking", "markers of every frame compared with the rotation accumulated by the model"),
    "C12": ("exhaustive enumeration of crossings of the periodic box in the real wrapping code and complete runs, " + MODEL,
            "model_checking", "all faces, corners and shear values within the bounds"),
    "C13": (ENUM + "with an equivalent description of the same periodic arrangement", "model_checking",
            "all image shifts, translations, whole-period shears and axis renamings within the bounds"),
    "C14": (ENUM + "with an independently written Ewald sum", "model_checking",
            "the reference uses other splitting parameters and larger shells"),
    "C15": ("exhaustive enumeration of interruption points, torn files and repeated interruptions in real runs, " + MODEL,
            "model_checking", "every file operation and solver call within the bounds is an interruption point; the restarted run's record is compared with the model's"),
    "C16": ("exhaustive enumeration of saving schedules in complete real runs, " + MODEL,
            "model_checking", "every combination of start and intervals within the bounds is run"),
    "C17": ("exhaustive enumeration of command lines, forms, missing data and size pairs in the real program",
            "model_checking", "every argument prefix with every listed value, every missing block and every size pair"),
    "C18": ("exhaustive enumeration of sequences of random draws through the real placement code", "model_checking",
            "every sequence of the first few draws over a grid, for every listed request; the rest of each sequence is fixed"),
    "C19": (ENUM + "with the written force law applied bead by bead", "model_checking",
            "all listed pairs, and all subsets of a site lattice for several particles"),
    "C20": ("exhaustive enumeration of flow options and times, and complete real runs of lone particles, compared with the documented flow",
            "model_checking", "every option combination at every listed time; every listed position in every scheme"),
    "C21": ("exhaustive comparison of every table entry with independently assembled matrices, limits and symmetries, and runs of every generation program over bounded inputs",
            "model_checking", "every entry of the shipped tables; every near-field function at "
            "43 size ratios; the mid-field program at every tabulated point from separation 2.3; "
            "the joining and subtracting programs on all sets of size ratios"),
    "C22": ("exhaustive enumeration of runs and matrices, each executed compiled and interpreted and compared", "model_checking",
            "the kernels are compiled afresh into a scratch cache in every run of the check"),
    "C23": ("exhaustive enumeration of a tensor grid through every conversion", "model_checking",
            "all tensors with entries from a finite alphabet"),
    "C24": ("exhaustive enumeration of records of real runs, every frame loaded, restarted and drawn",
            "model_checking", "all frames of records of 6 mixtures x 9 saving schedules x 6 "
            "timestep spellings; the shipped plotting programs run with every frame range and "
            "the drawn objects are compared with the record"),
    "C25": ("exhaustive enumeration of mode combinations x bounded arrangements against independently assembled matrices, and complete runs in every mode",
            "model_checking", "all 16 mode combinations on every placement of 1-2 particles on "
            "a finite set of sites, free and periodic, and the two dumbbell-only forms"),
    "C26": ("exhaustive enumeration of durations, sizes and schedules through the reporting code and of complete runs under a controlled clock",
            "model_checking", "all unit boundaries and all small schedules; every printed column of every run compared with the model's"),
    "C27": ("exhaustive enumeration of display settings over complete runs, each compared with the undisplayed run",
            "model_checking", "every display setting and printing level x scheme x mixture x "
            "mode; saved records must be identical and drawn objects must match the positions"),
    "C28": ("exhaustive enumeration of the shipped examples and of the published data points they are compared with, as complete real runs",
            "model_checking", "every example of the README and every published point; agreement is to the accuracy of figures read off paper"),
    "C29": ("exhaustive enumeration of which dumbbell passes the length limit, when and how, in complete real runs, " + MODEL,
            "model_checking", "every dumbbell, frame and kind of growth within the bounds, guarded and unguarded"),
    "C30": ("exhaustive enumeration of the shipped setups and inputs over mixtures, forms and instants against their descriptions",
            "model_checking", "every numbered setup and input; every mixture of up to 6 spheres and 5 dumbbells x 5 forms x 21 instants"),
}
NOT = {}
SETUP = "true"
TEXT = ("Checks import the code from /repo's working tree at run time; nothing is built or "
        "installed. ./replay <artefact> re-runs a reported violation.")
