"""Runs the command line program of /repo in scratch directories."""
import concurrent.futures as cf
import hashlib, os, shutil, subprocess, tempfile
import vf

NOBODY = 65534


def _gcc(name, ext, flags):
    src = os.path.join(vf.ROOT, "shim", name + ".c")
    out = os.path.join(vf.BUILD, "%s-%s%s" % (name, hashlib.sha1(open(src, "rb").read()).hexdigest()[:10], ext))
    with vf._locked("shim"):
        if not os.path.exists(out):
            p = subprocess.run(["gcc", "-O1"] + flags + ["-o", out + ".tmp", src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise vf.ToolError("%s does not build: %s" % (name, p.stdout))
            os.rename(out + ".tmp", out)
    return out


def build_shim():
    """A library which keeps the system configuration in a scratch directory."""
    return _gcc("etc", ".so", ["-shared", "-fPIC"])


def build_actor():
    """A code formatter which follows a script."""
    return _gcc("actor", "", [])


class Cli:
    """The program under test, run by an unprivileged user on scratch files only."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="hd-cli-")
        os.chmod(self.root, 0o755)
        self.bin = os.path.join(self.root, "hongdown")
        shutil.copy(vf.build_cli(), self.bin)
        self.shim = os.path.join(self.root, "etc.so")
        shutil.copy(build_shim(), self.shim)
        os.chmod(self.bin, 0o755)
        os.chmod(self.shim, 0o755)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)

    def scratch(self, name):
        d = os.path.join(self.root, name)
        os.mkdir(d)
        return d

    def run(self, args, cwd, stdin=b"", env=None, limit=60, own=None):
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "LD_PRELOAD": self.shim, "HD_ETC": os.path.join(self.root, "no-etc"),
             "HOME": os.path.join(self.root, "no-home"), "XDG_CONFIG_HOME": os.path.join(self.root, "no-xdg")}
        e.update(env or {})
        e = {k: v for k, v in e.items() if v is not None}
        try:
            p = subprocess.run([self.bin] + args, cwd=cwd, input=stdin, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit,
                               user=NOBODY, group=NOBODY, extra_groups=[])
        except subprocess.TimeoutExpired:
            return None, b"", b"timeout"
        return p.returncode, p.stdout, p.stderr

    def each(self, f, items):
        """Run f(item, scratch directory) for every item, in parallel."""
        def one(ix):
            i, x = ix
            d = self.scratch("s%d" % i)
            try:
                return f(x, d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
        with cf.ThreadPoolExecutor(vf.JOBS) as ex:
            return list(ex.map(one, enumerate(items)))


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())


def toml(rec):
    """A configuration file in one of the ways TOML can be written."""
    if rec["form"] == "broken":
        return "line_width = \n[heading\n"
    style = sum(map(ord, str(sorted(map(tuple, rec["set"]))))) % 3
    top, sections = [], {}
    if rec["no"]:
        top.append("no_inherit = true")
    elif style == 1:
        top.append("no_inherit = false")
    for key, value in sorted(map(tuple, rec["set"])):
        parts = key.rsplit(".", 1)
        if len(parts) == 1 or style == 2:
            top.append("%s = %s" % (key, value))
        else:
            sections.setdefault(parts[0], []).append("%s = %s" % (parts[1], value))
    return "\n".join(["# layer " + rec["at"]] + top + [l for s, ls in sections.items() for l in ["", "[%s]" % s] + ls]) + "\n"
