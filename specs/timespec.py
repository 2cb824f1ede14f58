from vsa.run import check


def g(ctx, *es, **kw):
    p = ctx.prog(harness=("timetools.c",))
    for e in es:
        ctx.add(p, e, **kw)


@check("T01")
def t01(ctx):
    g(ctx, "t01_diff", "t01_diff_now", "t01_add_ns", "t01_add_us")


@check("T02")
def t02(ctx):
    g(ctx, "t02_cmp", "t02_diff_us", "t02_range", "t02_null")


@check("T03")
def t03(ctx):
    g(ctx, "t03_to", "t03_from", "t03_tv", "t03_msleep", "t03_clock")


@check("T04")
def t04(ctx):
    g(ctx, "t04_us", "t04_ms")
