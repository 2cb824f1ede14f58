from vsa.run import check
T = ("u16", "i16", "u32", "i32", "u64", "i64")


@check("V01")
def v01(ctx):
    p = ctx.prog(harness=("varint.c",))
    for t in T:
        ctx.add(p, "dec_" + t, ignore=("spec",))
        ctx.add(p, "decnull_" + t)


@check("V02")
def v02(ctx):
    p = ctx.prog(harness=("varint.c",))
    for t in T:
        ctx.add(p, "enc_" + t)
        ctx.add(p, "encnull_" + t)


@check("V03")
def v03(ctx):
    p = ctx.prog(harness=("varint.c",))
    for t in T:
        ctx.add(p, "rt_" + t)


@check("V04")
def v04(ctx):
    p = ctx.prog(harness=("varint.c",))
    for t in T:
        ctx.add(p, "dec_" + t)
        ctx.add(p, "det_" + t)


@check("V05")
def v05(ctx):
    p = ctx.prog(harness=("varint.c",))
    for t in T:
        ctx.add(p, "fmt_" + t)
        ctx.add(p, "val_" + t)
