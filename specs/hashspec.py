from vsa.run import check


@check("H01")
def h01(ctx):
    p = ctx.prog(harness=("hash.c",))
    for e in ("0_0_3", "0_1_2", "0_2_2", "0_3_1", "0_4_1", "1_2_1", "2_2_1", "2_1_1"):
        ctx.add(p, "h01_" + e)
    ctx.add(p, "h01_alias")


@check("H02")
def h02(ctx):
    p = ctx.prog(harness=("hash.c",))
    ctx.add(p, "h02_own")


@check("H03")
def h03(ctx):
    p = ctx.prog(harness=("hash.c",))
    ctx.add(p, "h03_init")
    ctx.add(p, "h03_null")
