"""cases: input scripts with all kinds of schedules, and the events of their runs"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import vf

PHASES = ["write_init", "vis_init", "print_init", "print_iter", "write_iter", "vis_iter", "print_final", "write_final", "vis_final"]
NEVER = 1000000


def config(r):
    """a random schedule"""
    c = {"f": {"print": r.choice([1, 1, 2, 3, 5, 7, 10]), "write": r.choice([1, 2, 3, 4, 6, 10, 15, 100]),
               "vis": r.choice([1, 2, 3, 4, 5, 9, 20, 100]), "stopit": NEVER, "stopupd": NEVER}}
    f = c["f"]
    k = r.random()
    if k < .5:
        f["stopit"] = r.choice([0, 1, 2, 3, f["print"], 2*f["print"], 2*f["print"] + 1, 4*f["print"], r.randint(1, 30)])
    elif k < .8:
        f["stopupd"] = r.choice([0, 1, 2, 4, 7])
    else:
        f["stopit"], f["stopupd"] = r.randint(1, 30), r.randint(1, 8)
    c["ovr"] = r.sample(PHASES, r.choice([0, 0, 0, 1, 2, 4]))
    c["width"] = r.choice([1, 2, 3, 5, 10, 12])
    c["draw"] = r.choice([0, 0, 1, 2])  # no files, field, field with edges and skewness
    c["pre"] = r.choice(["none", "none", "dangling", "rerun"])
    c["slash"] = r.random() < .5
    c["exists"] = r.random() < .5 or c["pre"] != "none"
    c["cmds"] = {}
    for u in range(1, 9):
        if r.random() < .3:
            cmds, err = [], False
            for _ in range(r.choice([1, 1, 2, 3])):
                w = r.choice(["say", "say", "print", "write", "vis", "stopit", "stopupd", "error"])
                if w == "error" and err:
                    continue
                err = err or w == "error"
                v = {"say": r.randint(1, 99), "error": 0, "print": r.choice([1, 2, 3, 4, 10]), "write": r.choice([1, 2, 3, 8]),
                     "vis": r.choice([1, 2, 5, 6]), "stopit": r.choice([0, 5, 12, 40]), "stopupd": r.choice([0, u, u + 1, u + 3])}[w]
                cmds.append([w, v])
            c["cmds"][u] = cmds
    return c


def command(c):
    w, v = c
    if w == "say":
        return f"println {{@say {v}}}"
    if w == "error":
        return "this_variable_is_undefined + 1"
    return {"print": "print_freq", "write": "write_freq", "vis": "vis_freq", "stopit": "stop_it", "stopupd": "stop_upd"}[w] + f" = {v}"


SNAP = """cd w
echo "@snap $1" >> ../obs
ls -1 >> ../obs
for x in latest.mesh.h5 latest.state.h5; do if [ -L $x ]; then echo "@link $x $(readlink $x)" >> ../obs; fi; done
grep -o '[a-z_]*iter[0-9]*\.h5' *.xmf 2> /dev/null | sort -u | sed 's/^/@ref /' >> ../obs
grep -o '<Topology.* Type="[A-Za-z]*' *.xmf 2> /dev/null | sed 's/<.*"/ /; s/^/@top /' >> ../obs
"""


def script(c, mon=("{it = iteration; sq = (iteration*7)%11;}", 0.25, 100)):
    f = c["f"]
    over = "\n".join(f"{p} = {{println {{@over {p}}}}}" for p in c["ovr"])
    return f"""n_dim = 2
row_size = 2
init_ref_level = 1
altitude = 0.
freestream_mach = 0.3
working_dir = {{{'w/' if c['slash'] else 'w'}}}
print_freq = {f['print']}
write_freq = {f['write']}
vis_freq = {f['vis']}
iter_width = {c['width']}
vis_surface = false
vis_field = {'true' if c['draw'] else 'false'}
vis_edges = {'true' if c['draw'] > 1 else 'false'}
vis_skew = {'true' if c['draw'] > 1 else 'false'}
vis_n_sample = 2
vis_field_vars = {{density = density;}}
print_vars = {{iteration = iteration; half = iteration/2.; word = {{w}} + iteration;}}
monitor_vars = {mon[0]}
monitor_window = {mon[1]}
monitor_samples = {mon[2]}
local_time = false
n_upd = 0
stop_it = {f['stopit']}
stop_upd = {f['stopupd']}
done = {{iteration >= stop_it | n_upd >= stop_upd}}
{over}
$start
max_time_step = 1e-7
$mesh
init_state
println {{@ready}}
iterate = {{
    println({{@before }} + iteration)
    n_upd = n_upd + 1
    shell({{if [ -f cmd}} + n_upd + {{ ]; then cat cmd}} + n_upd + {{ > w/runtime_cmd.hil; fi}})
}} + iterate + {{
    println({{@after }} + n_upd + {{ }} + iteration + {{ }} + flow_time + {{ }} + it_min + {{ }} + it_max + {{ }} + sq_min + {{ }} + sq_max)
    shell({{sh snap.sh }} + n_upd)
}}
$run
println {{@over}}
"""


def number(s):
    return int(round(float(s)))


def snapshot(lines, width):
    """what a directory listing says"""
    o = {"mesh": [], "state": [], "vis": [], "lmesh": -1, "lstate": -1, "new": -1, "old": -1}
    refs, sets, tops = {}, {}, {}
    for x in lines:
        if m := re.fullmatch(r"@link latest\.(mesh|state)\.h5 iter(\d+)\.(mesh|state)\.h5", x):
            o["l" + m[1]] = int(m[2]) if m[1] == m[3] and len(m[2]) == max(width, len(str(int(m[2])))) else -7
        elif m := re.fullmatch(r"@ref (\S+):(\S+)", x):
            refs.setdefault(m[1], set()).add(m[2])
        elif m := re.fullmatch(r"@top (\S+): (\S+)", x):
            tops.setdefault(m[1], set()).add(m[2])
        elif m := re.fullmatch(r"(?:(\w+)_)?iter(\d+)\.(mesh\.h5|state\.h5|h5|xmf)", x):
            n = int(m[2])
            if len(m[2]) != max(width, len(str(n))):
                n = -7  # the name does not have the requested width
            sets.setdefault((m[1] or "") + "." + m[3], set()).add(n)
    o["mesh"] = sorted(sets.get(".mesh.h5", ()))
    o["state"] = sorted(sets.get(".state.h5", ()))
    vis = sets.get("field.xmf", set())
    return o, sets, refs, tops, vis


def observe(lines, c):
    o, sets, refs, tops, vis = snapshot(lines, c["width"])
    names = ["field"] + (["field_edges", "skew", "skew_edges"] if c["draw"] > 1 else [])
    ok = all(sets.get(f"{n}.{x}", set()) == vis for n in names for x in ("xmf", "h5"))
    for i in vis:
        for n in names:
            m = f"{n}_iter{str(i).zfill(c['width'])}"
            # refers to its own data, and shows lines (edges) or areas (field)
            ok = ok and refs.get(f"{m}.xmf") == {f"{m}.h5"} and (tops.get(f"{m}.xmf") == {"Polyline"}) == ("edges" in n)
    o["vis"] = sorted(vis) if ok else [-5]
    for key, which in (("new", "latest1"), ("old", "latest0")):
        got = set()
        for n in names[:2]:  # which data does the copy show?
            ref = sorted(refs.get(f"{n}_{which}.xmf", ()))
            m = re.fullmatch(n + r"_iter(\d+)\.h5", ref[0]) if len(ref) == 1 else None
            got.add(int(m[1]) if m else -1 if not ref else -6)
        o[key] = got.pop() if len(got) == 1 else -6
    return o


def run_case(exe, c, where, keep=False, **kw):
    """events of one run: for the schedule, and for its monitors"""
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    pre = {"mesh": [], "state": []}
    w = f"{where}/w"
    if c["exists"]:
        os.makedirs(w)
    if c["pre"] != "none":
        os.symlink("iter" + "7".zfill(c["width"]) + ".mesh.h5", f"{w}/latest.mesh.h5")
        os.symlink("iter" + "7".zfill(c["width"]) + ".state.h5", f"{w}/latest.state.h5")
    if c["pre"] == "rerun":
        for k in pre:
            with open(f"{w}/iter{'7'.zfill(c['width'])}.{k}.h5", "w") as g:
                g.write("an earlier run")
            pre[k] = [7]
    with open(f"{where}/in.hil", "w") as g:
        g.write(script(c, **kw))
    with open(f"{where}/snap.sh", "w") as g:
        g.write(SNAP)
    for u, cmds in c["cmds"].items():
        with open(f"{where}/cmd{u}", "w") as g:
            g.write("\n".join(map(command, cmds)) + "\n")
    rc, so, se = vf.sh([exe, "in.hil"], timeout=120, cwd=where)
    vf.sh(["sh", "snap.sh", "end"], cwd=where) if os.path.isdir(w) else None
    out = open(f"{w}/output.txt", errors="replace").read() if os.path.exists(f"{w}/output.txt") else ""
    obs = open(f"{where}/obs", errors="replace").read().split("\n") if os.path.exists(f"{where}/obs") else []
    snaps, cur = {}, None
    for x in obs:
        if m := re.fullmatch(r"@snap (\w+)", x):
            cur = snaps.setdefault(m[1], [])
        elif cur is not None:
            cur.append(x)
    lm = {"lmesh": -1, "lstate": -1}
    if c["pre"] != "none":
        lm = {"lmesh": 7, "lstate": 7}
    ev = [{"ev": "reset", "ovr": c["ovr"], "draws": int(c["draw"] > 0), "f": c["f"], **pre, **lm}]
    mon = []
    same = out in so  # the user sees the same on the terminal
    lines = out.split("\n")
    lines = lines[lines.index("@ready") + 1:] if "@ready" in lines else []
    exc = False
    for x in lines:
        t = x.split()
        if exc and x.startswith(("@", " " * 5)) and not x.startswith("    "):
            exc = False
        if not t:
            continue
        if t[0] == "@before":
            ev.append({"ev": "before", "it": int(t[1])})
            ev.append({"ev": "update", "cmds": c["cmds"].get(sum(e["ev"] == "update" for e in ev) + 1, [])})
        elif t[0] == "@after":
            o = observe(snaps.get(t[1], []), c)
            ev.append({"ev": "after", "it": int(t[2]), "flow": number(float(t[3])/1e-7), **o})
            mon.append((int(t[2]), list(map(number, t[4:8]))))
        elif t[0] == "@say":
            ev.append({"ev": "say", "what": int(t[1])})
        elif t[0] == "@over" and len(t) > 1:
            ev.append({"ev": "override", "what": t[1]})
        elif t[0] == "@over":
            o = observe(snaps.get("end", []), c)
            ev.append({"ev": "end", "rc": rc if same and os.path.exists(f"{w}/in.hil") else 99, **o})
        elif x == "writing mesh/state data...done":
            ev.append({"ev": "written"})
        elif x == "visualizing...done":
            ev.append({"ev": "drawn"})
        elif x == "simulation complete":
            ev.append({"ev": "complete"})
        elif x == "      iteration,            half,            word":
            ev.append({"ev": "header"})
        elif m := re.fullmatch(r" *(\d+), +(\S+), +w(\S+)", x):
            ev.append({"ev": "report", "it": int(m[1]), "half": number(2*float(m[2])), "word": int(m[3])})
        elif x.startswith("Hexed Interface Language exception"):
            ev.append({"ev": "error"})
    if not ev or ev[-1]["ev"] != "end":
        ev.append({"ev": "end", "rc": str(rc) + " " + se[-300:], "mesh": [], "state": [], "vis": [], "lmesh": -9, "lstate": -9, "new": -9, "old": -9})
    if not keep:
        shutil.rmtree(where, ignore_errors=True)
    return ev, mon


def run_all(ctx, exe, configs, **kw):
    """run all configurations, several at a time"""
    base = f"{ctx.dir}/scratch"
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda x: run_case(exe, x[1], f"{base}{x[0]}", **kw), enumerate(configs)))
    return res


def dump(events):
    return [json.dumps(e, separators=(",", ":")) for e in events]
