"""Builds the Cython modules of /repo's current tree in a scratch folder and imports arcticpy with them.

The in-place .so files of /repo are never used: they may be older than the .pyx files."""
import glob, importlib.util, importlib.machinery, os, subprocess, sys, sysconfig, shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


class BuildError(Exception):
    pass


def build(out, boundscheck=False, sanitize=False):
    """Compile every arcticpy/*.pyx into `out`. boundscheck: turn the boundscheck(False) decorators into True."""
    import numpy
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"]]
    procs = []
    for path in sorted(glob.glob(os.path.join(REPO, "arcticpy", "*.pyx"))):
        name = os.path.basename(path)[:-4]
        d = os.path.join(out, "src", "arcticpy")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "__init__.py"), "a").close()
        text = open(path, newline="").read()
        if boundscheck:
            text = text.replace("boundscheck(False)", "boundscheck(True)")
        pyx = os.path.join(d, name + ".pyx")
        with open(pyx, "w", newline="") as f:
            f.write(text)
        c = os.path.join(d, name + ".c")
        so = os.path.join(out, name + SUFFIX)
        extra = ["-fsanitize=address", "-g"] if sanitize else []
        cmd = (f"cd {out}/src && {sys.executable} -W ignore -m cython -3 arcticpy/{name}.pyx -o {c} && "
               f"gcc -shared -fPIC -O1 -w -std=c99 {' '.join(extra)} {' '.join(inc)} {c} -o {so}")
        procs.append((name, subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for name, p in procs:
        o, _ = p.communicate(timeout=600)
        if p.returncode:
            raise BuildError(f"{name}: {o.decode(errors='replace')[-3000:]}")
    shutil.rmtree(os.path.join(out, "src"), ignore_errors=True)
    return out


class _Finder:
    def __init__(self, folder):
        self.folder = folder

    def find_spec(self, fullname, path=None, target=None):
        if not fullname.startswith("arcticpy."):
            return None
        so = os.path.join(self.folder, fullname.split(".", 1)[1] + SUFFIX)
        if not os.path.exists(so):
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def activate(folder):
    """Make `import arcticpy` give /repo's current Python with the freshly built extensions."""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    sys.meta_path.insert(0, _Finder(folder))
    import arcticpy
    f = os.path.realpath(arcticpy.__file__)
    assert f.startswith(os.path.realpath(REPO) + os.sep), f
    return arcticpy
