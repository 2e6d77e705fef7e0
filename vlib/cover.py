"""Which lines of gradslam the workloads executed (sys.monitoring, each line reported once)."""
import os
import sys

_NEW = {}
_ON = False


def start(repo):
    global _ON
    mon = getattr(sys, "monitoring", None)
    if mon is None or _ON:
        return
    root = os.path.realpath(os.path.join(repo, "gradslam")) + os.sep
    tool = 4
    try:
        mon.use_tool_id(tool, "verif-cover")
    except ValueError:
        return

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(root) or os.path.realpath(f).startswith(root):
            mon.set_local_events(tool, code, mon.events.LINE)
        return mon.DISABLE

    def on_line(code, line):
        f = os.path.realpath(code.co_filename)
        _NEW.setdefault(f[len(root):], set()).add(line)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, on_start)
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.PY_START)
    _ON = True


def take():
    """Lines seen for the first time in this process since the last call."""
    global _NEW
    out, _NEW = _NEW, {}
    return out


def executable(path):
    """Line numbers inside the functions of a source file."""
    lines = set()

    def walk(code, inside):
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                walk(c, True if not c.co_name.startswith("<") or inside else inside)
        if inside and code.co_name != "<module>":
            lines.update(l for _, _, l in code.co_lines() if l and l != code.co_firstlineno)
    try:
        walk(compile(open(path).read(), path, "exec"), False)
    except Exception:
        pass
    return lines
