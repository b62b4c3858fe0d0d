"""No function of the package refers to anything that ends the process, prints, touches files, starts processes or changes state of
the interpreter; windows are opened by the plotting operation alone.  Decided on an inventory of every reference to a name from outside
the package (through imports, aliases, constant getattr) in every function, and on the call graph."""
import ast
import fnmatch
from ..effects import Inventory, own

TECHNIQUE = "effect inventory: every outside name referenced in every function, classified; call-graph reachability for windows"
PLOT = "programs._linear.LinearProgram.graph_polyhedron"

SAFE_ROOTS = {"math", "cmath", "numpy", "typing", "itertools", "functools", "collections", "heapq", "bisect", "operator", "re", "copy", "decimal", "fractions",
              "enum", "dataclasses", "abc", "string", "numbers", "types", "__future__", "statistics", "textwrap", "contextlib", "warnings", "json", "inspect",
              "weakref", "array", "builtins", "random", "time", "datetime", "scipy", "matplotlib", "typing_extensions", "hashlib", "uuid", "secrets", "sys", "queue"}
EXIT = ["sys.exit", "sys.abort", "os._exit", "os.abort", "os.kill*", "os.exec*", "builtins.exit", "builtins.quit", "builtins.SystemExit", "signal", "signal.*", "faulthandler.*"]
PRINT = ["builtins.print", "sys.stdout*", "sys.stderr*", "sys.__stdout__*", "sys.__stderr__*", "builtins.input", "logging.*", "pprint.*", "os.write"]
FILES = ["builtins.open", "io.*", "os", "os.*", "pathlib.*", "shutil.*", "tempfile.*", "glob.*", "numpy.save*", "numpy.load*", "numpy.memmap*", "numpy.fromfile", "numpy.genfromtxt", "numpy.DataSource*",
         "*.tofile", "*.savefig", "*.imsave", "json.dump", "json.load", "pickle.*", "shelve.*", "sqlite3.*", "csv.*", "codecs.open", "fileinput.*", "matplotlib.image.*", "zipfile.*", "gzip.*"]
PROC = ["subprocess.*", "multiprocessing.*", "socket.*", "urllib.*", "http.*", "threading.*", "concurrent.*", "asyncio.*", "ctypes.*", "webbrowser.*", "builtins.exec", "builtins.eval", "builtins.compile", "builtins.breakpoint"]
STATE = ["numpy.seterr*", "numpy.setbufsize", "numpy.set_printoptions", "numpy.set_string_function", "numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate",
         "sys.set*", "sys.path*", "sys.modules*", "sys.meta_path*", "sys.excepthook", "sys.displayhook", "warnings.filterwarnings", "warnings.simplefilter", "warnings.resetwarnings", "warnings.showwarning",
         "locale.*", "gc.*", "decimal.getcontext*", "decimal.setcontext", "decimal.DefaultContext*", "atexit.*", "os.environ*", "os.chdir", "os.umask", "resource.*", "importlib.*", "site.*",
         "matplotlib.use", "matplotlib.rc*", "matplotlib.style*", "matplotlib.pyplot.rc*", "matplotlib.pyplot.style*", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ion", "matplotlib.pyplot.xkcd",
         "builtins.globals", "builtins.__import__", "builtins.setattr.*"]
ALLOW = ["numpy.seterrcall.__doc__", "numpy.loads.__doc__"]
WINDOW = ["matplotlib.pyplot.*", "matplotlib.figure.*", "turtle.*", "tkinter.*"]
KINDS = [("ends the process", EXIT), ("prints", PRINT), ("touches files or the system", FILES), ("starts processes or runs computed code", PROC), ("changes state of the interpreter", STATE)]
METHODS = {"tofile": "writes a file", "savefig": "writes a file", "write_text": "writes a file", "write_bytes": "writes a file", "unlink": "removes a file", "__globals__": "reaches into module state", "__dict__": None}


def hit(path, pats):
    p = path.replace("()", "")
    return any(fnmatch.fnmatchcase(p, q) for q in pats) and not any(fnmatch.fnmatchcase(p, q) for q in ALLOW)


def under_context(fn, line, names):
    """the line lies in a `with` over one of the named context managers, which undoes the change"""
    for n in ast.walk(fn.node):
        if isinstance(n, (ast.With, ast.AsyncWith)) and n.lineno <= line <= n.end_lineno:
            for i in n.items:
                if any(x in ast.unparse(i.context_expr) for x in names):
                    return True
    return False


def judge(fn):
    """(complaints, undecided) about one function"""
    bad, und = [], []
    for u in fn.uses:
        root = u.path.split(".")[0].replace("()", "")
        if u.how != "use":
            if "()" in u.path:
                continue            # a value the outside function returned
            bad.append((u.line, "%s %s changes state outside the package" % (u.how, u.path)))
            continue
        for what, pats in KINDS:
            if hit(u.path, pats):
                if what.startswith("changes") and under_context(fn, u.line, ("catch_warnings", "localcontext", "errstate", "printoptions", "rc_context")):
                    continue
                bad.append((u.line, "`%s` %s" % (u.path, what)))
                break
        else:
            if root not in SAFE_ROOTS:
                und.append((u.line, "outside name `%s` is not classified" % u.path))
    for a, load in fn.attrs:
        if a in METHODS and METHODS[a]:
            bad.append((None, "method `%s` %s" % (a, METHODS[a])))
    for line, t in fn.dynamic:
        und.append((line, t))
    for n in (ast.walk(fn.node) if not isinstance(fn.node, ast.Module) else own([k for k in fn.node.body if not isinstance(k, ast.ClassDef)])):
        if isinstance(n, ast.Raise) and n.exc is not None:
            t = ast.unparse(n.exc)
            if t.split("(")[0] in ("SystemExit", "KeyboardInterrupt", "GeneratorExit"):
                bad.append((n.lineno, "raising %s ends the process" % t))
    return bad, und


def run(ck):
    inv = Inventory()
    ck.funcs |= {f.qual for f in inv.fns}
    for f in inv.fns:
        bad, und = judge(f)
        nm = "effects of %s" % f.qual
        # a class or function defined under a deny-listed name inside the package is resolved before the outside one, so what is left is real
        bad = [b for b in bad if not (b[1].startswith("method") and inv.methods.get(b[1].split("`")[1]))]
        ck.sites |= {(f.qual, u.line) for u in f.uses}
        if bad:
            for line, t in bad[:3]:
                ck.add(nm, "violated", f.at(line), "%s: %s" % (f.qual, t))
        elif und:
            ck.add(nm, "unknown", f.at(und[0][0]), und[0][1])
        else:
            ck.ok(nm, f.at(), "%d references to outside names, none with an effect" % len(f.uses))
    if not any(f.qual == PLOT for f in inv.fns):
        ck.add("windows", "unknown", None, "the plotting operation is gone")
        return
    n = 0
    for f in inv.fns:
        ws = [u for u in f.uses if hit(u.path, WINDOW)]
        if isinstance(f.node, ast.Module):
            ws = [u for u in ws if u.path not in ("matplotlib.pyplot",)]
        if not ws:
            continue
        n += 1
        ent = sorted(g.qual for g in inv.reaching(f) if (g.public or isinstance(g.node, ast.Module)) and g.qual != PLOT)
        ck.add("windows of %s" % f.qual, "violated" if ent else "ok", f.at(ws[0].line), "`%s` is reached from %s" % (ws[0].path, ", ".join(ent[:6]) or "the plotting operation only"))
    ck.ok("windows", inv.fns[0].at(), "%d functions of %d refer to plotting" % (n, len(inv.fns)))
