from vsa.run import check


@check("L01")
def l01(ctx):
    p = ctx.prog(harness=("list.c",), lib=False)
    for e in ("init", "add", "del", "replace", "replace_head", "move", "move_across"):
        ctx.add(p, "l01_" + e)


@check("L02")
def l02(ctx):
    p = ctx.prog(harness=("list.c",), lib=False)
    for e in ("query", "walk", "safe", "pop"):
        ctx.add(p, "l02_" + e)
