"""What every check runs."""
import json, re
import vlib

CHECKS = {}

TRUST = ["TLC and the TLA+ community modules are right",
         "the recorder reports calls and cells as they were (it is Go code of the harness, compiled with the library)",
         "behaviour outside of the generated files, options and call sequences is not looked at"]


def check(prop, bounds, level="model_checking", assumptions=None):
    def deco(f):
        CHECKS[prop] = {"run": f, "level": level, "bounds": bounds, "assumptions": assumptions or TRUST}
        return f
    return deco


def q(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


@check("C01", "random schemas of up to 8 columns in up to 3 levels, up to 6000/columns rows, all writer options; files of a column of each kind with 66,000 rows and more")
def c01(ctx):
    ctx.model("OrcFile")
    ctx.model("OrcEngine")
    tr = ctx.drive("roundtrip", count=q(ctx, 250, 2500), rows=q(ctx, 5000, 9000))
    ctx.validate("OrcFileTrace", tr, "round trips")
    big(ctx, q(ctx, 17, 340), seed=300, all=4)
    sessions(ctx, "real files", "mixed", q(ctx, 40, 300), q(ctx, 200, 400), q(ctx, 100, 1000), os=True)


def generate(ctx, layouts, num=None):
    """Call histories for real files, chosen by TLC from OrcEngine: all of them (num None) or num random ones."""
    good = [l for l in layouts if not l["bad"]]
    bad = [l for l in layouts if l["bad"]]
    f = ctx.path("files.json")
    keys = ("stripes", "stride", "incs", "readers", "depth", "small", "sim")
    with open(f, "w") as h:
        json.dump([{k: l[k] for k in keys} for l in good], h)
    seqs = []
    if good:
        args = [] if num is None else ["-simulate", "num=%d" % num, "-depth", "200", "-seed", str(ctx.seed + 1)]
        rc, out = ctx.tlc("OrcGen.tla", "OrcGen.cfg", env={"FILES": f}, workers=1, args=args)
        if rc != 0:
            raise vlib.Infra("OrcGen:\n" + out[-4000:])
        for line in out.splitlines():
            if line.startswith('"SEQ '):
                q = json.loads(json.loads(line)[4:])
                seqs.append(q)
    # files that could not be made are traces too, and rejected
    for l in bad:
        good.append(l)
        seqs.append({"f": len(good), "ops": []})
    return good, seqs


def sessions(ctx, what, mode, files, rows, num, shorts=False, drain=True, spec="OrcFileTrace", cmd="sessions", **more):
    lay = ctx.drive("layouts", count=files, rows=rows, arg={"mode": mode})
    if any("dead" in l for l in lay):
        return ctx.validate("OrcFileTrace", [l for l in lay if "dead" in l], what)
    good, seqs = generate(ctx, lay, num)
    tr = ctx.drive(cmd, arg=dict(more, layouts=good, seqs=seqs, drain=drain, shorts=shorts))
    ctx.validate(spec, tr, what)
    ctx.samples[-1]["generated_histories"] = len(seqs)
    return len(seqs)


def big(ctx, count, seed=0, **arg):
    tr = ctx.drive("big", count=count, rows=q(ctx, 30000, 200000), seed=ctx.seed + seed, arg=arg)
    ctx.validate("OrcFileTrace", tr, "long files")


@check("C02", "all histories of depth 4 (thorough: 5) over 6-row files in several stripes; random histories of up to 20 calls over files of up to 400 rows")
def c02(ctx):
    ctx.model("OrcEngine")
    sessions(ctx, "all histories over small files", "small", q(ctx, 3, 8), q(ctx, 4, 5), None)
    sessions(ctx, "histories over one file per kind", "kinds", q(ctx, 34, 170), q(ctx, 150, 400), q(ctx, 600, 6000))


def printed(out):
    return [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"SEQ ')]


@check("C03", "every null pattern of a struct and of a column over 5 rows (thorough: 6) in 1 to 3 stripes, for every kind; random patterns over random schemas and up to 3000 rows")
def c03(ctx):
    pats = printed(ctx.model("Nulls", q(ctx, "Nulls", "NullsThorough"), workers=1))
    tr = ctx.drive("nulls", arg=pats)
    ctx.validate("OrcFileTrace", tr, "every null pattern")
    tr = ctx.drive("roundtrip", count=q(ctx, 80, 1000), rows=q(ctx, 3000, 6000), seed=ctx.seed + 1000, arg={"nullable": True})
    ctx.validate("OrcFileTrace", tr, "random null patterns")
    sessions(ctx, "histories", "kinds", q(ctx, 17, 170), q(ctx, 150, 400), q(ctx, 200, 3000))


@check("C04", "all histories of depth 4 (thorough: 5) over 6-row files in several stripes; random histories of up to 20 calls over files of every kind and random schemas, up to 400 rows; seeks in files of 66,000 rows and more")
def c04(ctx):
    ctx.model("OrcEngine")
    sessions(ctx, "all histories over small files", "small", q(ctx, 3, 10), q(ctx, 4, 5), None)
    sessions(ctx, "histories over files of one kind", "kinds", q(ctx, 51, 340), q(ctx, 200, 400), q(ctx, 600, 6000))
    sessions(ctx, "histories over random schemas", "mixed", q(ctx, 40, 300), q(ctx, 150, 400), q(ctx, 300, 4000))
    big(ctx, q(ctx, 34, 340), all=8)
    sessions(ctx, "histories over real files", "indexed", q(ctx, 34, 170), q(ctx, 200, 400), q(ctx, 100, 1000), os=True)


@check("C18", "files of all kinds, random schemas, projections and histories with closes; in one of three a file operation fails; writers with every operation failing; files of the operating system with their descriptors counted")
def c18(ctx):
    ctx.model("Handles")
    sessions(ctx, "histories", "mixed", q(ctx, 60, 400), q(ctx, 150, 300), q(ctx, 400, 5000), spec="HandlesTrace", cmd="handles", drain=False)
    sessions(ctx, "histories of real files", "mixed", q(ctx, 40, 300), q(ctx, 150, 300), q(ctx, 200, 2000), spec="HandlesTrace", cmd="handles", drain=False, os=True)
    tr = ctx.drive("whandles", count=q(ctx, 40, 400), rows=q(ctx, 40, 80))
    ctx.validate("HandlesTrace", tr, "writers")


@check("C06", "random schemas of up to 10 columns in up to 3 levels, 5 projections each, random histories of up to 4 batch readers")
def c06(ctx):
    ctx.model("OrcEngine")
    sessions(ctx, "projections", "mixed", q(ctx, 120, 900), q(ctx, 150, 300), q(ctx, 700, 8000))


def files(ctx, what, cfg, count, rows, seed=0, **arg):
    tr = ctx.drive("files", count=count, rows=rows, seed=ctx.seed + seed, arg=arg)
    ctx.validate("FileTrace", tr, what, cfg=cfg)


@check("C05", "row indexes of files of all kinds with up to 3000/columns rows (thorough: 8000), strides 1 to 1000, all chunk sizes: every entry of every stream against the decoded runs; histories of seeks over indexed files, also of 66,000 rows and more")
def c05(ctx):
    files(ctx, "row indexes", "FileIndex", q(ctx, 300, 3000), q(ctx, 3000, 8000), index=True)
    sessions(ctx, "seeks over indexed files", "indexed", q(ctx, 34, 170), q(ctx, 300, 600), q(ctx, 300, 4000))
    big(ctx, q(ctx, 34, 340), seed=600, all=100, index=True)


@check("C07", "statistics of file, stripes and strides of files of all kinds, up to 4000/columns rows (thorough: 10000), and of a column of each kind with 66,000 rows and more")
def c07(ctx):
    files(ctx, "statistics of small values", "FileStats", q(ctx, 250, 2500), q(ctx, 4000, 10000), small=True)
    files(ctx, "statistics of any values", "FileStats", q(ctx, 250, 2500), q(ctx, 4000, 10000), seed=500)
    files(ctx, "long files", "FileStats", q(ctx, 34, 340), q(ctx, 300, 40000), seed=700, huge=True)


@check("C08", "metadata of files with stripe sizes of 1 to 3000 bytes, all kinds, options and Write histories; every stream decoded; layout of files of 66,000 rows and more")
def c08(ctx):
    ctx.model("OrcFile")
    files(ctx, "small stripes", "FileBoth", q(ctx, 300, 3000), q(ctx, 3000, 8000), stripes=True)
    files(ctx, "any options", "FileLayout", q(ctx, 300, 3000), q(ctx, 5000, 9000), seed=500)
    files(ctx, "long files", "FileShape", q(ctx, 17, 170), q(ctx, 300, 40000), seed=700, huge=True)
    files(ctx, "long columns", "FileBoth", q(ctx, 102, 612), q(ctx, 5000, 12000), seed=700, stripes=True, long=True)


def plans(ctx, what, bases, num=None, depth=4, hist=None):
    """Files laid out by Layouts: checked against the format, read by the library."""
    f = ctx.path("bases.json")
    with open(f, "w") as h:
        json.dump([{k: b[k] for k in ("rows", "stride", "cols", "nulls")} for b in bases], h)
    small = num is None
    args = [] if small else ["-simulate", "num=%d" % num, "-depth", "3000", "-seed", str(ctx.seed + 7)]
    rc, out = ctx.tlc("Layouts.tla", "Layouts.cfg" if small else "LayoutsSim.cfg", env={"FILES": f}, workers=1, args=args)
    if rc != 0:
        raise vlib.Infra("Layouts:\n" + "\n".join(l for l in out.splitlines() if not l.startswith(chr(34)))[:6000])
    ps = printed(out)
    made = ctx.drive("plans", rows=depth, arg={"bases": bases, "plans": ps, "small": small})
    if any("dead" in m for m in made):
        raise vlib.Infra("plans: %r" % [m for m in made if "dead" in m][:1])
    ctx.validate("FileTrace", [m["rec"] for m in made], what + ": files", cfg="FileDataIndex", own=True)
    lay = [m["layout"] for m in made]
    good, seqs = generate(ctx, lay, hist)
    # every file is read from start to end, too
    for k in range(len(good)):
        seqs.append({"f": k + 1, "ops": [{"op": "create", "r": 0, "cap": 0, "k": 0, "inc": 0}, {"op": "next", "r": 0, "cap": 3, "k": 0, "inc": 0}]})
    tr = ctx.drive("sessions", arg={"layouts": good, "seqs": seqs, "drain": True})
    ctx.validate("OrcFileTrace", tr, what)
    ctx.samples[-1].update(plans=len(ps), generated_histories=len(seqs))


@check("C20", "every layout of a 2-row column of every kind in up to 2 stripes, compressed or not, with or without a row index; random layouts by random writers of files of up to 150 rows (thorough: 400) and 9 columns: stripes, streams and their order, encodings, runs, chunks, positions, tails; random histories over them")
def c20(ctx):
    bases = ctx.drive("planbases", count=q(ctx, 17, 68), rows=2, arg={"small": True})
    plans(ctx, "all layouts of small files", bases, depth=q(ctx, 2, 3))
    bases = ctx.drive("planbases", count=q(ctx, 150, 900), rows=q(ctx, 150, 400), arg={})
    plans(ctx, "random layouts", bases, num=q(ctx, 400, 5000), hist=q(ctx, 800, 10000))


@check("C21", "files of all kinds, options and schemas of up to 8 columns with up to 4000/columns rows (thorough: 9000), decoded by the format's rules")
def c21(ctx):
    files(ctx, "files", "FileData", q(ctx, 500, 5000), q(ctx, 4000, 9000))


@check("C10", "every sequence of up to 5 letters of an alphabet with extremes; random shaped sequences around run length edges, signed and unsigned, flushed at random points; spec-generated shapes: outliers at every kind of distance, differences and values of every width, repeats of every length")
def c10(ctx):
    arg = {"alphabet": ["0", "1", "2", "-1", "300", "9223372036854775807", "-9223372036854775808"], "len": q(ctx, 4, 5)}
    tr = ctx.drive("rleenc", count=q(ctx, 500, 8000), rows=q(ctx, 1100, 3000), arg=arg)
    ctx.validate("RleTrace", tr, "encoder")
    shapes = printed(ctx.model("RleShapes", q(ctx, "RleShapes", "RleShapesAll"), workers=1))
    tr = ctx.drive("rleenc", arg={"plans": shapes})
    ctx.validate("RleTrace", tr, "shapes of the specification")


@check("C11", "every sub-encoding with every width code and 15 run lengths, signed and unsigned, with random payloads, in random chunk layouts")
def c11(ctx):
    heads = printed(ctx.model("RleGen", workers=1))
    import random
    random.Random(ctx.seed).shuffle(heads)
    if not ctx.thorough:
        heads = [h for h in heads if h["n"] < 20 or (h["code"] * 7 + h["n"]) % 5 == ctx.seed % 5]
    for k in range(q(ctx, 1, 4)):
        tr = ctx.drive("rledec", arg=heads, seed=ctx.seed + 100 * k)
        ctx.validate("RleTrace", tr, "legal runs")


@check("C12", "every byte sequence of two letters up to 10 (thorough: 13) bytes and every bool sequence up to 11 (14); random ones with run lengths around all borders, several flushes; every control byte decoded, through random chunk layouts")
def c12(ctx):
    tr = ctx.drive("byteenc", count=q(ctx, 500, 6000), rows=q(ctx, 900, 3000), arg={"bytes": q(ctx, 10, 13), "bools": q(ctx, 11, 14)})
    ctx.validate("ByteTrace", tr, "encoders")
    for k in range(q(ctx, 2, 10)):
        tr = ctx.drive("bytedec", count=256, seed=ctx.seed + 100 * k)
        ctx.validate("ByteTrace", tr, "legal runs")


@check("C13", "streams of all 8 kinds with up to 1500 values (200 for chunk sizes below 10), chunk sizes 1 to 65536, written chunks and other chunk layouts of the same bytes, reads after 8 recorded positions each")
def c13(ctx):
    ctx.model("Chunks")
    tr = ctx.drive("chunks", count=q(ctx, 480, 6000), rows=q(ctx, 1500, 4000))
    ctx.validate("ChunksTrace", tr, "streams")


@check("C14", "every prefix of files of up to 40 rows of all kinds and options (of longer ones those around writes and magic, and 400 others), files inside cells among them")
def c14(ctx):
    ctx.model("OrcFile")
    tr = ctx.drive("truncate", count=q(ctx, 240, 2400), rows=q(ctx, 60, 300))
    ctx.validate("OrcFileTrace", tr, "prefixes")


@check("C15", "files of up to 40 rows of all kinds and options; every file operation of their writing fails once and from there on, short and partial writes")
def c15(ctx):
    ctx.model("OrcFile")
    tr = ctx.drive("wfaults", count=q(ctx, 80, 600), rows=q(ctx, 40, 80))
    ctx.validate("OrcFileTrace", tr, "faults")


@check("C16", "files of up to 40 rows of all kinds and options, one random history each; every file operation of it fails once or from there on, with errors, early ends and partial reads; reads of 1 to 40 bytes")
def c16(ctx):
    ctx.model("OrcFile")
    tr = ctx.drive("rfaults", count=q(ctx, 80, 800), rows=q(ctx, 40, 100))
    ctx.validate("OrcFileTrace", tr, "faults")
    tr = ctx.drive("sfaults", count=q(ctx, 200, 1500), rows=q(ctx, 1100, 2600))
    ctx.validate("OrcFileTrace", tr, "faults of seeks")
    sessions(ctx, "short reads", "mixed", q(ctx, 30, 200), q(ctx, 150, 300), q(ctx, 200, 2500), shorts=True)


@check("C19", "every date of the years 1 to 9999, with times of day and locations; every nanosecond value; times of fixed and named locations of these years; files of dates, timestamps of any 64-bit seconds and decimals of any mantissa and scales of up to 22 bits")
def c19(ctx):
    ctx.model("Calendar")
    tr = ctx.drive("dates") + ctx.drive("times", count=q(ctx, 12000, 200000)) + ctx.drive("nanos")
    ctx.validate("ValuesTrace", tr, "conversions")
    files(ctx, "files", "FileData", q(ctx, 200, 2000), q(ctx, 3000, 8000), kinds=["date", "timestamp", "decimal"])
    sessions(ctx, "histories", "values", q(ctx, 40, 300), q(ctx, 200, 400), q(ctx, 200, 2500))


@check("C09", "files of all kinds and options, up to 1500/columns rows (thorough: 4000), each written 7 to 9 times in other splits, row by row, with empty batches, refilled vectors; the content of each read")
def c09(ctx):
    ctx.model("Batches")
    tr = ctx.drive("splits", count=q(ctx, 260, 1500), rows=q(ctx, 1500, 4000))
    ctx.validate("BatchesTrace", [t for t in tr if "cols" not in t or "dead" in t], "splits")
    ctx.validate("OrcFileTrace", [t for t in tr if "cols" in t and "dead" not in t], "content")


@check("C22", "every tree of up to 6 columns (thorough: 8) and random ones of up to 60 (some: 600) columns in up to 9 levels, with random kinds, names and nulls; 25 vectors each")
def c22(ctx):
    ctx.model("Schema")
    trees = printed(ctx.model("SchemaGen", q(ctx, "SchemaGen", "SchemaGenThorough"), workers=1))
    for k in range(q(ctx, 3, 10)):
        tr = ctx.drive("schemas", count=q(ctx, 120, 1000), rows=q(ctx, 60, 100), arg=trees, seed=ctx.seed + 100 * k)
        ctx.validate("SchemaTrace", tr, "schemas")
    tr = ctx.drive("schemas", count=q(ctx, 12, 60), rows=q(ctx, 600, 900), arg=[], seed=ctx.seed + 5000)
    ctx.validate("SchemaTrace", tr, "schemas of hundreds of columns")


@check("C17", "all orders of 2 actors with 5 and 3 actors with 3 steps, random orders of 5 actors with 14 steps; up to 11 actors in goroutines, under the race detector too; up to 4 interleaved batch readers of one reader")
def c17(ctx):
    orders = printed(ctx.model("Fleet", "Fleet2", workers=1)) + printed(ctx.model("Fleet", "Fleet3", workers=1))
    rc, o = ctx.tlc("Fleet.tla", "FleetSim.cfg", workers=1, args=["-simulate", "num=%d" % q(ctx, 300, 4000), "-depth", "80", "-seed", str(ctx.seed)])
    if rc != 0:
        raise vlib.Infra("Fleet:\n" + o[-3000:])
    orders += printed(o)
    tr = ctx.drive("fleet", rows=60, arg=orders)
    ctx.validate("FleetTrace", tr, "orders of steps")
    tr = ctx.drive("parallel", count=q(ctx, 160, 4000), rows=q(ctx, 150, 400))
    ctx.validate("FleetTrace", tr, "goroutines")
    tr = ctx.drive("parallel", count=q(ctx, 80, 1500), rows=q(ctx, 60, 150), seed=ctx.seed + 50, drv=ctx.build(race=True))
    ctx.validate("FleetTrace", tr, "goroutines under the race detector")
    sessions(ctx, "batch readers of one reader", "mixed", q(ctx, 60, 400), q(ctx, 100, 300), q(ctx, 300, 4000))


@check("C23", "written files of up to 40 rows (thorough: 100) of all kinds and options, 60 damages each: changed bytes anywhere; changed, missing, repeated and moved fields in postscript, footer, metadata, stripe footers and row indexes; changed stream contents, chunks and chunk headers, deflated bombs; everything else fitting; each read twice with projections, random batches and seeks; 64 MB per call")
def c23(ctx):
    ctx.model("Damage")
    for k in range(q(ctx, 2, 12)):
        tr = ctx.drive("damage", count=q(ctx, 120, 400), rows=q(ctx, 40, 100), seed=ctx.seed + 1000 * k)
        ctx.validate("DamageTrace", tr, "damage %d" % k)


@check("C24", "every tail that is one or two changes away from 2 small files (thorough: 4), 6,399 (thorough: all pairs) of them, compressed and not")
def c24(ctx):
    tails = printed(ctx.model("TailGen", q(ctx, "TailGen", "TailGenAll"), workers=1))
    ctx.validate("TailTrace", ctx.drive("tails", arg=tails), "tails")
    stripes = printed(ctx.model("StripeGen", q(ctx, "StripeGen", "StripeGenPairs"), workers=1))
    ctx.validate("StripeTrace", ctx.drive("stripetails", arg=stripes), "stripe footers")


@check("C25", "every change of one vector or value of batches of up to 2 rows (thorough: 3) of 6 schemas, in 4 writer histories (thorough: 6), with every kind; random changes of random batches of schemas of up to 8 columns; changed vectors for Next, seeks beyond the end, calls after Close, column sets at random")
def c25(ctx):
    plans = printed(ctx.model("RefusalGen", q(ctx, "RefusalGen", "RefusalGenThorough"), workers=1))
    ctx.validate("RefusalsTrace", ctx.drive("refusals", count=q(ctx, 1500, 12000), rows=q(ctx, 8, 20), arg=plans), "refusals")


@check("C26", "histories over files of every kind and random schemas of up to 600 rows (thorough: 2000), in stripes, strides and chunks of any size; every read of the file by every call")
def c26(ctx):
    for what, mode, n in (("files of one kind", "indexed", q(ctx, 51, 340)), ("random schemas", "mixed", q(ctx, 60, 400))):
        sessions(ctx, what, mode, n, q(ctx, 600, 2000), q(ctx, 300, 3000), spec="ReadsTrace", cmd="reads")
