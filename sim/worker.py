"""Worker: the zygote every simulated process is forked from, and their controller.

It imports the real libraries and the real occuprob from /repo, warms the third-party
libraries (never occuprob), and then executes simulated runs on command.
"""
import faulthandler, gc, importlib, io, json, os, sys, time, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("OCCUSIM_REPO", "/repo")


def warm():
    """Load and initialise third-party code that occuprob uses, without calling occuprob."""
    import numpy as np
    import ase.io
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import matplotlib.backends.backend_svg, matplotlib.backends.backend_pdf, matplotlib.backends.backend_agg
    from pymatgen.core.structure import Molecule
    from pymatgen.symmetry.analyzer import PointGroupAnalyzer
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        txt = '2\nProperties=species:S:1:pos:R:3 Energy=1.0 Frequencies="1 2 3"\nPt 0 0 0\nPt 0 0 2\n'
        p = os.path.join(os.environ["OCCUSIM_SCRATCH"], "warm-%d.xyz" % os.getpid())
        with open(p, "w") as f:
            f.write(txt)
        for a in ase.io.read(p, index=":"):
            a.get_moments_of_inertia()
        os.remove(p)
        PointGroupAnalyzer(Molecule(["O", "H", "H"], [[0, 0, .1], [0, .7, -.4], [0, -.7, -.4]]))
        if os.environ.get("OCCUSIM_WARM_PLOT", "1") == "1":
            for fmt in ("svg", "png", "pdf"):
                plt.figure(figsize=(3, 2))
                plt.plot([0, 1], [0, 1], label="x")
                plt.xlabel(r"$T$ [K]")
                plt.ylabel(r"Occupation probability, $P_a(T)$ $C_V/k_B$")
                plt.legend()
                plt.tight_layout()
                plt.savefig(io.BytesIO(), format=fmt)
                plt.close("all")
        np.savetxt(io.StringIO(), np.zeros((2, 2)))
        np.random.seed(0)


def boot():
    sys.path.insert(0, REPO)
    import core
    core.load_shim()
    warnings.simplefilter("ignore")
    warm()
    import threads
    with threads.patched_locks():
        import occuprob
        import occuprob.cli
    want = os.path.join(os.path.realpath(REPO), "occuprob")
    got = os.path.dirname(os.path.realpath(occuprob.__file__))
    if got != want:
        raise core.HarnessError("occuprob imported from %s, not from %s" % (got, want))
    import matplotlib.pyplot as plt
    if plt.get_fignums():
        plt.close("all")
    gc.collect()
    gc.freeze()
    return core


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    faulthandler.enable()

    def send(o):
        out.write(json.dumps(o) + "\n")
        out.flush()
    try:
        core = boot()
        import scenarios
        send({"ready": True})
    except BaseException:
        send({"error": traceback.format_exc()})
        return 3
    for line in sys.stdin:
        cmd = json.loads(line)
        try:
            send(scenarios.handle(cmd))
        except BaseException:
            send({"error": traceback.format_exc(), "cmd": {k: cmd[k] for k in cmd if k != "case"}})
    return 0


if __name__ == "__main__":
    sys.exit(main())
